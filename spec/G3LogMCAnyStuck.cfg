SPECIFICATION MCSpec
CONSTANTS
  KeepHist = FALSE
  Apps = {1, 2, 3}
  Workers = {0}
  Sinks = {1, 2, 3}
  Pre = {1, 2}
  Started = TRUE
  Ops = {"log", "add", "rm", "clr", "hc", "fut", "hold"}
  MaxOps = 4
  SinkOps = 0
  StuckSinks = {1}
  HandlerKinds = {}
INVARIANTS NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs
