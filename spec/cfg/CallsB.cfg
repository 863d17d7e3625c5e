SPECIFICATION Spec
CONSTANTS Prog <- ProgB
 Token = TRUE
 TestSet = TRUE
 Same = TRUE
INVARIANTS Numbers Whole OneEnd EndFinal Truthful Forever NextStays
