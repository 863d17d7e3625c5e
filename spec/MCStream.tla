---- MODULE MCStream ----
EXTENDS Stream
SizesA == <<1, 1, 2, 1, 3, 1, 1>>
SizesB == <<1, 2, 1, 1, 2, 1, 1, 3, 1, 1>>
SizesL == <<1, 2, 1, 1>>
====
