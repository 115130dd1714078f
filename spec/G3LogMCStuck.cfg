SPECIFICATION MCSpec
CONSTANTS
  KeepHist = FALSE
  Apps = {1, 2}
  Workers = {0}
  Sinks = {1, 2}
  Pre = {1, 2}
  Started = TRUE
  Ops = {"log", "hc", "add"}
  MaxOps = 2
  SinkOps = 0
  StuckSinks = {1}
  HandlerKinds = {}
INVARIANTS NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs
