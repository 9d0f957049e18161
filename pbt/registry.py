"""Which module holds the laws of which property."""
_GROUPS = {
    "nt_core": "C01 C02 C03 C04",
    "nt_primes": "C05 C06 C07",
    "nt_factor": "C08 C09 C10",
    "nt_arith": "C11 C12 C13 C14",
    "nt_zn": "C15 C16",
    "nt_misc": "C17 C18 C19 C20",
    "algebra": "C21 C22 C23 C24",
    "combi": "C25 C26 C27 C31",
    "optim": "C28 C29 C30",
    "structures": "C32 C33 C34",
    "graphs_core": "C35 C36 C41 C46",
    "graphs_paths": "C37 C38 C39 C40",
    "graphs_hard": "C42 C43 C44 C45",
    "history": "C47 C48 C49",
}
MODULE = {p: m for (m, ps) in _GROUPS.items() for p in ps.split()}
