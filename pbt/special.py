"""Composites that pass tests for primes, with their factorizations: Fermat and strong pseudoprimes to the base 2 (Mersenne and Fermat
numbers, the squares of the Wieferich primes among them), Carmichael numbers, and products p*q with q - 1 a small multiple of p - 1."""
ALL = [
    (11, 31), (11, 41), (13, 37), (3, 11, 17), (3, 5, 43), (11, 61), (19, 37), (13, 73), (5, 13, 17), (19, 73), (7, 13, 19), (31, 61), (3,
    5, 127), (23, 89), (5, 17, 29), (37, 73), (7, 13, 31), (29, 113), (37, 109), (17, 257), (3, 31, 47), (31, 151), (43, 127), (7, 23, 41),
    (73, 109), (53, 157), (3, 11, 257), (7, 19, 67), (31, 331), (5, 29, 73), (5, 7, 17, 19), (3, 17, 251), (7, 13, 151), (59, 233), (11, 31,
    41), (43, 337), (23, 683), (7, 31, 73), (5, 13, 257), (3, 5, 29, 43), (97, 193), (71, 281), (3, 11, 17, 41), (97, 241), (3, 31, 277),
    (13, 37, 61), (7, 13, 331), (17, 23, 79), (89, 353), (73, 433), (103, 307), (3, 43, 257), (5, 29, 241), (89, 397), (5, 7, 17, 67), (7,
    11, 13, 41), (5, 13, 641), (127, 337), (13, 37, 97), (157, 313), (151, 331), (7, 73, 103), (3, 5, 29, 127), (7, 13, 631), (101, 601),
    (89, 683), (3, 5, 47, 89), (7, 13, 19, 37), (59, 1103), (97, 673), (11, 41, 151), (3, 5, 43, 113), (5, 109, 137), (11, 13, 17, 31), (61,
    1321), (167, 499), (5, 29, 577), (53, 1613), (3, 127, 229), (149, 593), (11, 83, 97), (151, 601), (17, 53, 101), (7, 31, 433), (7, 11,
    13, 101), (229, 457), (5, 13, 17, 97), (11, 41, 251), (13, 37, 241), (5, 17, 1429), (59, 2089), (7, 13, 19, 73), (193, 673), (3, 11, 31,
    127), (137, 953), (23, 67, 89), (11, 41, 331), (17, 41, 233), (41, 61, 101), (37, 73, 109), (13, 61, 397), (19, 43, 409), (31, 61, 211),
    (41, 73, 137), (37, 73, 181), (31, 61, 271), (13, 97, 421), (19, 199, 271), (43, 127, 211), (31, 61, 631), (1093, 1093), (37, 73, 541),
    (23, 199, 353), (31, 181, 331), (41, 101, 461), (1009, 2017), (1069, 2137), (43, 211, 337), (1013, 3037), (1021, 3061), (29, 113, 1093),
    (1013, 4049), (1019, 4073), (31, 271, 601), (41, 241, 521), (29, 197, 953), (31, 151, 1171), (43, 127, 1093), (1013, 6073), (1021,
    6121), (43, 211, 757), (17, 353, 1201), (41, 241, 761), (37, 109, 2017), (47, 178481), (43, 433, 643), (3511, 3511), (43, 127, 2731),
    (43, 547, 673), (37, 613, 1621), (43, 631, 1597), (211, 421, 631), (43, 271, 5827), (47, 1151, 1933), (271, 541, 811), (43, 631, 13567),
    (41, 881, 12041), (31, 991, 15361), (233, 1103, 2089), (43, 3361, 3907), (47, 3727, 5153), (47, 3359, 6073), (601, 1201, 1801), (727,
    1453, 2179), (41, 1721, 35281), (641, 6700417), (1171, 2341, 3511), (1237, 2473, 3709), (100129, 200257), (100357, 200713), (100003,
    300007), (100267, 300799), (100003, 400009), (100103, 400409), (100019, 600109), (100049, 600289), (223, 616318177), (13367, 164511353),
    (30367, 60733, 91099), (30931, 61861, 92791), (31327, 62653, 93979), (31771, 63541, 95311), (100000081, 200000161), (100000399,
    200000797), (100000223, 300000667), (100000231, 300000691), (100000049, 400000193), (100000279, 400001113), (100000037, 600000217),
    (100000463, 600002773), (274177, 67280421310721), (193707721, 761838257287), (6000307, 12000613, 18000919), (6001087, 12002173,
    18003259), (6003727, 12007453, 18011179), (6004087, 12008173, 18012259), (1000000000537, 2000000001073), (1000000001911, 2000000003821),
    (1000000000063, 3000000000187), (1000000000211, 3000000000631), (1000000000091, 4000000000361), (1000000000561, 4000000002241),
    (1000000000039, 6000000000229), (1000000000061, 6000000000361), (6000003067, 12000006133, 18000009199), (6000003637, 12000007273,
    18000010909), (6000004921, 12000009841, 18000014761), (6000006781, 12000013561, 18000020341), (600000000004921, 1200000000009841,
    1800000000014761), (600000000025441, 1200000000050881, 1800000000076321), (600000000065647, 1200000000131293, 1800000000196939),
    (600000000073021, 1200000000146041, 1800000000219061),
]


def factored(f):
    return [(p, f.count(p)) for p in sorted(set(f))]
