SPECIFICATION Spec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
CONSTANT Aspects = {"accept","value","off","pos","class","path","detail","bytes","reser","rt","exc","fault"}
