#!/usr/bin/env python3
"""Writes the configurations of spec/G3LogMC.tla."""
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
INV="NothingBad Delivered Genuine OneOrder OneAtATime CallsInOrder CallsDone Flushed FatalShown AlwaysDies HookRuns HandlerDecides NoHookWithoutEvent EarlyRules Recurs"
def cfg(name, **k):
    d=dict(Apps='{1, 2}',Workers='{0}',Sinks='{1, 2}',Pre='{1}',Started='TRUE',Ops='{}',MaxOps=2,SinkOps=0,StuckSinks='{}',HandlerKinds='{}')
    d.update(k)
    open(os.path.join(SPEC, 'G3LogMC%s.cfg' % name), 'w').write("SPECIFICATION MCSpec\nCONSTANTS\n  KeepHist = FALSE\n"+"".join("  %s = %s\n"%x for x in d.items())+"INVARIANTS "+INV+"\n")
cfg('Member',Ops='{"log", "add", "rm"}')
cfg('Handle',Ops='{"log", "rm", "hc", "fut"}',Sinks='{1}')
cfg('Hold',Ops='{"log", "rm", "hc", "hold"}',Sinks='{1}')
cfg('Shut',Ops='{"log", "add", "clr", "shut", "destroy"}')
cfg('Fatal',Ops='{"log", "fatal", "hook"}',Pre='{1, 2}')
cfg('Handler',Ops='{"log", "fatal", "hook", "handler"}',Sinks='{1}',HandlerKinds='{"ret", "throw", "default+"}')
cfg('Life',Ops='{"log", "init", "add", "destroy"}',Sinks='{1}',Pre='{}',Started='FALSE')
cfg('Two',Ops='{"log", "init", "destroy"}',Sinks='{1}',Workers='{0, 1}')
cfg('Stuck',Ops='{"log", "hc", "add"}',Pre='{1, 2}',Sinks='{1, 2, 3}',StuckSinks='{1}')

cfg('Stuck',Ops='{"log", "hc", "add"}',Pre='{1, 2}',Sinks='{1, 2}',StuckSinks='{1}')
cfg('Inside',Apps='{1}',Ops='{"log", "hc", "rm", "destroy"}',Pre='{1, 2}',SinkOps=1,MaxOps=3)
# quick ones
cfg('MemberQ',Ops='{"log", "rm", "clr"}',Sinks='{1}')
cfg('HandleQ',Ops='{"rm", "hc", "fut"}',Sinks='{1}')
cfg('ShutQ',Ops='{"log", "shut", "destroy"}',Sinks='{1}')
cfg('FatalQ',Ops='{"log", "fatal"}',Sinks='{1}')
cfg('HandlerQ',Ops='{"fatal", "hook", "handler"}',Sinks='{1}',HandlerKinds='{"ret", "throw"}')
cfg('StuckQ',Ops='{"log", "hc"}',Pre='{1, 2}',StuckSinks='{1}')
cfg('LifeQ',Ops='{"log", "init", "add"}',Sinks='{1}',Pre='{}',Started='FALSE')
cfg('StuckQ',Ops='{"log", "hc", "add"}',Pre='{1}',Sinks='{1, 2}',StuckSinks='{1}',MaxOps=1)
cfg('Inside',Apps='{1}',Ops='{"log", "hc", "rm", "destroy"}',Pre='{1, 2}',SinkOps=1,MaxOps=2)
cfg('InsideQ',Apps='{1}',Ops='{"log", "hc"}',Pre='{1, 2}',SinkOps=1,MaxOps=2)
# random walks through larger ones
cfg('Any',Apps='{1, 2, 3}',Ops='{"log", "add", "rm", "clr", "hc", "fut", "hold", "shut", "destroy", "fatal", "hook", "handler"}',Pre='{1, 2}',Sinks='{1, 2, 3}',MaxOps=4,SinkOps=2,HandlerKinds='{"ret", "throw", "default+"}')
cfg('AnyLife',Apps='{1, 2, 3}',Ops='{"log", "add", "rm", "clr", "hc", "init", "shut", "destroy"}',Pre='{}',Sinks='{1, 2}',MaxOps=4,SinkOps=1,Started='FALSE')
cfg('AnyStuck',Apps='{1, 2, 3}',Ops='{"log", "add", "rm", "clr", "hc", "fut", "hold"}',Pre='{1, 2}',Sinks='{1, 2, 3}',MaxOps=4,StuckSinks='{1}')
