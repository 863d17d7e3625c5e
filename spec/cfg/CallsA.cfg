SPECIFICATION Spec
CONSTANTS Prog <- ProgA
 Token = TRUE
 TestSet = TRUE
 Same = TRUE
INVARIANTS Numbers Whole OneEnd EndFinal Truthful Forever NextStays
