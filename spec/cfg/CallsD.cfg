SPECIFICATION Spec
CONSTANTS Prog <- ProgD
 Token = TRUE
 TestSet = TRUE
 Same = TRUE
INVARIANTS Numbers Whole OneEnd EndFinal Truthful Forever NextStays
