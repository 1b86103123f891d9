SPECIFICATION Spec
CONSTANTS MaxCount = 2
 MaxDraws = 3
INVARIANTS IsProper Smoothed MoreForMore NothingIsUniform AllDraws
