SPECIFICATION MCSpec
CONSTANTS
  KeepHist = FALSE
  Apps = {1, 2}
  Workers = {0}
  Sinks = {1}
  Pre = {1}
  Started = TRUE
  Ops = {"rm", "hc", "fut"}
  MaxOps = 2
  SinkOps = 0
  StuckSinks = {}
  HandlerKinds = {}
INVARIANTS NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs
