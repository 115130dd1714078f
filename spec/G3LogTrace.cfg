SPECIFICATION TSpec
CONSTANTS KeepHist = FALSE
  Single = FALSE
CONSTRAINT Explore
CHECK_DEADLOCK FALSE
