"""Composites without small factors that are strong pseudoprimes to the first k prime bases: (k, n)."""
STRONG = [
    (1, 2632084056253),
    (1, 2693282602753),
    (1, 12122468832889),
    (1, 14952070520161),
    (1, 114686932740481),
    (1, 116378295561067),
    (1, 1151296830450607),
    (1, 1281540137845327),
    (1, 10992054794322421),
    (1, 12547328293180561),
    (1, 100392355373722513),
    (1, 171979231865358781),
    (1, 1143850876337824513),
    (1, 1470469255540838101),
    (1, 10784739917719409441),
    (1, 14632175244755375137),
    (1, 114118314541489303501),
    (1, 126703714206687804187),
    (1, 1034991897074139942001),
    (1, 1047856999021143041281),
    (1, 10883074493928528210881),
    (1, 10952536367076896381653),
    (2, 2268402075253),
    (2, 3811387939453),
    (2, 11613082097107),
    (2, 12316440937897),
    (2, 107924284888201),
    (2, 112393487722753),
    (2, 1154747479524553),
    (2, 1756281669591121),
    (2, 11173080694804033),
    (2, 11630582438572441),
    (2, 106149249345085777),
    (2, 107178404795990161),
    (2, 1237937155699511041),
    (2, 1251709674182800381),
    (2, 18590910049021928833),
    (2, 24867256025514710161),
    (2, 121955391384119122513),
    (2, 130781836685769568801),
    (2, 1357194223318277717887),
    (2, 1464288209111194995601),
    (2, 10279276627596899729047),
    (2, 14142811360199833026073),
    (3, 2650618430461),
    (3, 2695566850021),
    (3, 11729153779201),
    (3, 24302597712769),
    (3, 106854390233761),
    (3, 113637205248481),
    (3, 1425927912343849),
    (3, 1593947188128961),
    (3, 10363406890280761),
    (3, 10881104925300301),
    (3, 109252190340181981),
    (3, 115663234001663041),
    (3, 1095120367848030889),
    (3, 1101784791583349641),
    (3, 11864149984315002961),
    (3, 12920878902906241489),
    (3, 100817048108709929041),
    (3, 105147832961434941901),
    (3, 1539712370768586185089),
    (3, 1767238149614850741487),
    (3, 10265824897133107768021),
    (3, 10651639296917298984481),
    (4, 3215031751),
    (4, 2273312197621),
    (4, 3461715915661),
    (4, 4341937413061),
    (4, 4777422165601),
    (4, 5537838510751),
    (4, 5792018372251),
    (4, 15883263707851),
    (4, 16915961179981),
    (4, 18000729007381),
    (4, 21701403387841),
    (4, 31686224972221),
    (4, 40533031910401),
    (4, 112190066800351),
    (4, 130238938389121),
    (4, 131175316104661),
    (4, 134241542443357),
    (4, 165608207577667),
    (4, 209797864815841),
    (4, 1073221613103751),
    (4, 1702460975239081),
    (4, 1930099786944841),
    (4, 1935283525648021),
    (4, 2070543144126451),
    (4, 3104707526709601),
    (4, 13042641610330417),
    (4, 14387942614373281),
    (4, 14925296568090721),
    (4, 15163338295075141),
    (4, 16996465844436781),
    (4, 17174412776306341),
    (4, 124151512432909249),
    (4, 131901752910987361),
    (4, 162409578969716821),
    (4, 228261218753753461),
    (4, 288871620181540117),
    (4, 315952021782228001),
    (4, 1173746166486720121),
    (4, 1306409418781300567),
    (4, 1377635003430030901),
    (4, 1561256705003677921),
    (4, 1754259974535161341),
    (4, 1985581041962353921),
    (4, 11203521264487409761),
    (4, 16562554387559240761),
    (4, 17267059885856011681),
    (4, 18119766827294832001),
    (4, 19683713641772768941),
    (4, 31134798111622334221),
    (4, 106534473839618146561),
    (4, 123212559050634037141),
    (4, 154662975881454425941),
    (4, 155821631210261031241),
    (4, 156018862293639056161),
    (4, 156862015661486031751),
    (4, 1035326267270782683661),
    (4, 1172421594630529394581),
    (4, 1511843692494569551561),
    (4, 1560409501405034269441),
    (4, 1972461901329468117757),
    (4, 4097477686498992499321),
    (4, 12234384555988527026737),
    (4, 12601300047404354661787),
    (4, 13108655743765295303521),
    (4, 14565807434855309012641),
    (4, 14859178054126331176261),
    (4, 15399637343636997971521),
    (5, 2152302898747),
    (5, 11377272352951),
    (5, 18996486073489),
    (5, 21569059132741),
    (5, 29578828517101),
    (5, 40682698620481),
    (5, 49550735135449),
    (5, 211470316413049),
    (5, 533707624278181),
    (5, 763610753070721),
    (5, 814143626608861),
    (5, 917997897367981),
    (5, 1900686475189441),
    (5, 2402921698865827),
    (5, 3918153815447581),
    (5, 5047645125985351),
    (5, 5278152592843021),
    (5, 6948886474000351),
    (5, 10775431438450381),
    (5, 13063491005014081),
    (5, 14313975087877741),
    (5, 14341685515501969),
    (5, 17084342134550767),
    (5, 18230103728275141),
    (5, 146134314199720351),
    (5, 324754781645299141),
    (5, 363535059074837281),
    (5, 367913063315447821),
    (5, 445008212419213081),
    (5, 557067189931993261),
    (5, 1263696004978893649),
    (5, 1398119471493892951),
    (5, 1668630960737045761),
    (5, 1691001770170310461),
    (5, 1871759807715225781),
    (5, 1872103911512350141),
    (5, 10713158768821950127),
    (5, 10784014586338677601),
    (5, 14295066341874314041),
    (5, 21377692173958506847),
    (5, 26485479949226041507),
    (5, 55644376270089239461),
    (5, 131649175388789537221),
    (5, 152234407054017680941),
    (5, 160019127154597822567),
    (5, 189296690065969434301),
    (5, 189394474173694334821),
    (5, 280577732698628226751),
    (5, 1523519940466800581581),
    (5, 1954707825990955674241),
    (5, 4009251034895966756821),
    (5, 5159215281656160798067),
    (5, 5830827684891491891251),
    (5, 6375273646721950531009),
    (5, 10221969920472583699861),
    (5, 16392507835951558029421),
    (5, 17020076309913803366701),
    (5, 17422834377221620921729),
    (5, 17876725485607180009261),
    (5, 19149035515758469291141),
    (6, 3474749660383),
    (6, 32398013051587),
    (6, 75451785985621),
    (6, 4627853036319787),
    (6, 29645348137369147),
    (6, 38154965342338981),
    (6, 95702793156537661),
    (6, 312995651338321381),
    (6, 357581818656165421),
    (6, 969367105074881341),
    (6, 1592243183500232581),
    (6, 2390505813359695201),
    (6, 75679151132097384301),
    (6, 392424696070053843307),
    (6, 792562930048517645881),
    (6, 4739069864802585127861),
    (7, 341550071728321),
    (7, 15276810864696481),
    (7, 30020830945551001),
    (7, 1558590701407178251),
    (7, 3602893659473169784717),
    (8, 1646697619851137101),
    (9, 3825123056546413051),
    (12, 318665857834031151167461),
]
