SPECIFICATION MCSpec
CONSTANTS
  KeepHist = FALSE
  Apps = {1, 2, 3}
  Workers = {0}
  Sinks = {1, 2}
  Pre = {}
  Started = FALSE
  Ops = {"log", "add", "rm", "clr", "hc", "init", "shut", "destroy"}
  MaxOps = 4
  SinkOps = 1
  StuckSinks = {}
  HandlerKinds = {}
INVARIANTS NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs
