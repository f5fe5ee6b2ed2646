SPECIFICATION Spec
CONSTANTS NoDid = {"F"} Mute = {"M"}
CHECK_DEADLOCK FALSE
