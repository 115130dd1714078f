SPECIFICATION TSpec
CONSTANTS KeepHist = FALSE
  Single = TRUE
CONSTRAINT Explore
CHECK_DEADLOCK FALSE
