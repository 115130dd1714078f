SPECIFICATION MCSpec
CONSTANTS
  KeepHist = FALSE
  Apps = {1}
  Workers = {0}
  Sinks = {1, 2}
  Pre = {1, 2}
  Started = TRUE
  Ops = {"log", "hc"}
  MaxOps = 2
  SinkOps = 1
  StuckSinks = {}
  HandlerKinds = {}
INVARIANTS NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs
