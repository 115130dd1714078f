SPECIFICATION MCSpec
CONSTANTS
  KeepHist = FALSE
  Apps = {1, 2}
  Workers = {0}
  Sinks = {1}
  Pre = {1}
  Started = TRUE
  Ops = {"fatal", "hook", "handler"}
  MaxOps = 2
  SinkOps = 0
  StuckSinks = {}
  HandlerKinds = {"ret", "throw"}
INVARIANTS NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs
