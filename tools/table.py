NA = {}
C = ["core"]
p("C01", C, theorems=["thm::c03_mint"])
p("C02", C, theorems=["thm::c03_burn"])
p("C03", C, theorems=["thm::c03", "thm::c03_accrual", "thm::c03_mint", "thm::c03_burn", "thm::c03_gov", "thm::c03_reb"])
p("C04", C, theorems=["thm::c04"])
p("C05", C, theorems=["thm::c05"])
p("C06", C, theorems=["thm::c06", "thm::inv_step"])
p("C07", C, theorems=["thm::c07"])
p("C08", C, theorems=["thm::c08_targets"])
p("C09", C, theorems=["thm::c09"])
p("C10", C, theorems=["thm::c10_clock", "thm::c10_factor", "thm::c03_accrual"])
p("C11", C, theorems=["thm::c11"])
p("C12", C, theorems=["thm::inv_init", "thm::inv_step"])
p("C13", C, theorems=["thm::c13_mint", "thm::c13_burn"])
p("C14", C, theorems=["thm::inv_init", "thm::inv_step"])
A = ["airdrop"]
p("A01", A, theorems=["thm::a01", "thm::a01_init", "thm::a01_solvent", "thm::inv_init", "thm::inv_step"])
p("A02", A, theorems=["thm::a02", "thm::inv_step"])
p("A03", A, theorems=["thm::a03"])
p("A04", A, theorems=["thm::a04", "thm::inv_step"])
p("A05", A, theorems=["thm::a05", "thm::inv_step"])
p("A06", A, theorems=["thm::a06_verify"])
p("U01", C + A + ["periphery"])
p("L01", C + A, theorems=["lthm::l01_rest_s", "lthm::l01_rest_u", "lthm::l01_rest_f", "lthm::l01_walk"])
p("T01", C + ["pool"])
p("M01", ["math"], theorems=["thm::m01_small", "thm::m01_upper", "thm::m01_cutoff"])
p("W01", ["pool"], theorems=["pthm::w01_out", "pthm::w01_half", "pthm::w01_update"])
p("S01", ["pool"], theorems=["pthm::s01_max", "pthm::s01_min", "pthm::s01_in", "pthm::s01_out"])
p("S02", ["pool"], theorems=["pthm::s02_between"])
Q = ["periphery"]
p("P01", Q, theorems=["pfthm::p01"])
p("P02", Q, theorems=["pfthm::p02_mint_in", "pfthm::p02_mint_out", "pfthm::p02_burn_in", "pfthm::p02_burn_out"])
p("P03", Q)
p("P04", Q, theorems=["pfthm::p04_mint_out", "pfthm::p04_burn_in"])
