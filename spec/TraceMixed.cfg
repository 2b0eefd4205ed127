SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANT Aspects = {"kind","elem","pos","depth","data","handle","eof","class","num","exc","bytes"}
