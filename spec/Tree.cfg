SPECIFICATION Spec
VIEW TreeView
INVARIANTS
  C22_Capacities C17_AtRest C22_Position C03_Loops C07_Call C06_Elements C09_Lengths C10_Column C13_Order C02_Index C16_Cont
  Recorded
PROPERTIES
  P_C01 P_C02 P_C03 P_C04 P_C05 P_C06 P_C07 P_C08 P_C09 P_C10 P_C11 P_C12 P_C13 P_C14 P_C16 P_C18 P_C19 P_C21 P_C25 P_C27 P_C28
CHECK_DEADLOCK FALSE
