SPECIFICATION Spec
CONSTANTS Prog <- ProgC
 Token = TRUE
 TestSet = TRUE
 Same = TRUE
INVARIANTS Numbers Whole OneEnd EndFinal Truthful Forever NextStays
