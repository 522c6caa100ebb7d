#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand; the output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","A state machine only ever moves along a configured edge",
 "A machine leaves its current state only through a Transition call whose target is a configured edge from that state, and every rejected call returns an error and leaves the state as it was. A stoppable machine rejects every transition from the first rejected one until Reset; a non-stoppable machine never refuses a configured edge. Reset always returns to the initial state and clears the stop.",
 ["inputs","histories","configurations"],"every set of configured edges (any state names, duplicates and self loops included), stoppable or not, and every sequence of Transition/Allowable/Reset calls",
 "the tests drive one three-edge graph through fixed call sequences",
 ["pkg/fsm/fsm.go","pkg/fsm/options.go","pkg/fsm/transition.go"],
 [("Machine.transition","pkg/fsm/fsm.go"),("stoppable.ok","pkg/fsm/options.go"),("WithTransition(s), T, flatten","pkg/fsm/options.go, transition.go")],
 [("current","state the machine is in","pkg/fsm/fsm.go Machine.current"),("stopped","a rejected transition happened","pkg/fsm/options.go stoppable.stopped")],
 ["fsm.NewMachine","Machine.Transition","Machine.State","Machine.Allowable","Machine.Reset"])
p("C02","A nonce authorises exactly one transition attempt",
 "A nonce-protected machine changes state only when the caller presents the nonce that is current at that moment and the edge is configured; a wrong, truncated, empty or earlier nonce is refused with an error and leaves the state unchanged. Every attempt, successful or not, and every Reset retires the current nonce and installs a freshly drawn one, so no nonce value is ever accepted twice. Stop and Reset behave as for the plain machine.",
 ["inputs","histories","configurations"],"every nonce byte string offered, every drawn nonce, every graph, every sequence of attempts and resets",
 "the tests try one empty nonce and one correct nonce on a fixed graph; they never replay an earlier nonce or try near misses",
 ["pkg/fsm/nonce.go","pkg/fsm/fsm.go"],
 [("MachineNonce.Transition","pkg/fsm/nonce.go"),("nonce.ok","pkg/fsm/nonce.go"),("newNonce","pkg/fsm/nonce.go")],None,
 ["fsm.NewMachineNonce","MachineNonce.Transition","MachineNonce.Nonce","MachineNonce.Reset"])
p("C03","Counters total exactly what was added, under any interleaving",
 "A counter's value is the sum of everything added since it was created or last reset. For the concurrent counter and the concurrent windowed counter this holds when adds, reads and resets come from several goroutines in any interleaving, with no data race, no lost update and no deadlock; a concurrent read returns a value the counter really had.",
 ["inputs","schedules","histories"],"every sequence of amounts (total within int), every interleaving of concurrent callers",
 "the concurrency test sums 50 adds of 1 under whatever schedule the runtime picks and has no concurrent readers or resets",
 ["pkg/metric/counter.go"],
 [("Counter.Add/Value/Reset","pkg/metric/counter.go"),("ConcurrentCounter, ConcurrentWindowedCounter locking","pkg/metric/counter.go")],None,
 ["metric.NewCounter","metric.NewConcurrentCounter","metric.NewConcurrentWindowedCounter"])
p("C04","A windowed counter attributes every add to the window it fell in",
 "Whatever the clock does between calls, an add counts toward the open window if it arrives before the window ends and otherwise starts a new window at that moment; Value is the open window's count and zero once the window has elapsed; no add is lost or counted twice across the history and the current window. With duration zero there is a single window that never closes.",
 ["inputs","histories"],"every non-decreasing sequence of instants at which Add/Value/History/Reset are called, every window length and every amount",
 "the tests use sleeps far from any boundary and look at one history each",
 ["pkg/metric/counter.go"],
 [("WindowedCounter.Add","pkg/metric/counter.go"),("WindowedCounter.Value/History/HistoryInclusive","pkg/metric/counter.go")],
 [("hist","closed windows, oldest first","pkg/metric/counter.go WindowedCounter.hist"),("current","open window","pkg/metric/counter.go")],
 ["metric.NewWindowedCounter"])
p("C05","Windowed history respects its limits and is a stable snapshot",
 "A returned history lists closed windows oldest first, holds at most MaxHistory of them (the most recent ones) and none older than MaxHistoryDuration, and drops nothing else. HistoryInclusive is the same with the current window last. A history that was returned never changes afterwards, whatever is added, reset or read later.",
 ["inputs","histories","configurations"],"every call sequence, clock and pair of limits, including both limits together and none",
 "the tests check one history with each limit once and never look at a returned history again",
 ["pkg/metric/counter.go"],
 [("newHistory","pkg/metric/counter.go"),("WindowedCounter.History/HistoryInclusive","pkg/metric/counter.go")],None,
 ["WindowedCounter.History","WindowedCounter.HistoryInclusive"])
p("C06","A series holds exactly its most recent observations in order",
 "A series of capacity n reports the last n observations, oldest first; before it is full, the observations so far in order followed by zeros. Count is the number of observations since creation or Reset, capacity never changes, and the returned values are a copy that later recording does not disturb.",
 ["inputs","histories"],"every capacity, every sequence of observations, reads and resets, and initial values given at construction",
 "three tests with fixed lists; none wraps around more than once, resets, or re-reads an earlier result",
 ["pkg/metric/series.go"],
 [("Series.Record/nextIndex/Values","pkg/metric/series.go"),("Series.Reset","pkg/metric/series.go"),("WithValues","pkg/metric/series.go")],None,
 ["metric.NewSeries","Series.Values","Series.Count"])
p("C07","A sampled series folds each observation into exactly one sample",
 "Between two ticks of the sample window all observations recorded, from any goroutine, are combined by the strategy into exactly one sample, in arrival order, and a window without observations yields a zero sample; no observation is lost, repeated or split across samples. With a zero window every observation becomes a sample immediately. Reset discards both the samples and the pending observations, and the stop function ends the sampling goroutine.",
 ["inputs","schedules","histories"],"every interleaving of Record/Values/Reset calls with window ticks and stop, every observation value",
 "the tests sleep past one or two ticks with a single goroutine and capacity one",
 ["pkg/metric/sampled.go","pkg/metric/series.go"],
 [("NewSampledSeries sampling goroutine","pkg/metric/sampled.go"),("SampledSeries.Record/Reset","pkg/metric/sampled.go")],None,
 ["metric.NewSampledSeries","SampledSeries.Values"])
p("C08","Sampling strategies compute the sum, mean, minimum and maximum",
 "SampleSum, SampleAverage, SampleMin and SampleMax return the sum, arithmetic mean, least and greatest of the observations in the window, and zero for an empty window. They do not modify the observations.",
 ["inputs"],"every window content",
 "each strategy is tried on one pair of positive numbers, so sign, order and emptiness are untested",
 ["pkg/metric/sampled.go"],[("SampleSum/SampleAverage/SampleMin/SampleMax","pkg/metric/sampled.go")],None,
 ["metric.SampleSum","metric.SampleAverage","metric.SampleMin","metric.SampleMax"])
p("C09","A metric name renders deterministically and without ambiguity",
 "The text of a metric name depends only on its name and metadata, not on map order: key=value pairs sorted by key, then annotations sorted, inside one pair of brackets. Two metrics with the same base name and different well-formed metadata never render to the same text, and a name copied from another shares no metadata with it.",
 ["inputs","configurations"],"every metadata map with well-formed keys, every iteration order, every value text including spaces, quotes and equals signs",
 "the tests render five fixed maps; iteration order is whatever the runtime picks",
 ["pkg/metric/name.go"],[("MarshalText","pkg/metric/name.go"),("NewNameFrom, AddMetadata, AddAnnotation","pkg/metric/name.go")],None,
 ["metric.Name.String","metric.NewNameFrom"])
p("C10","A detector calibrates on a full baseline before it can alarm",
 "A detector raises no alarm until its series has filled with capacity observations; the observation that completes a baseline with positive mean and variance starts testing with the control limit at mean +/- k*sqrt(lambda/(2-lambda)*variance) of exactly those observations (plus when looking for a rise, minus when looking for a return to normal) and the statistic at the mean. A baseline without positive mean and variance never starts testing. A detector sent to the reset state starts a new baseline with its next observation, without error.",
 ["inputs","histories","configurations"],"every observation sequence, capacity, smoothing factor and k, and manual transitions to the reset state and the two testing states, for both distributions",
 "the tests feed random data and look at the state twice; the lower limit and the reset path are never exercised",
 ["pkg/stat/estimator.go","pkg/stat/pdf.go","pkg/stat/state.go"],
 [("TestStatistic.Record","pkg/stat/estimator.go"),("calculateLimit","pkg/stat/estimator.go"),("meanNormal/varianceNormal","pkg/stat/pdf.go")],None,
 ["TestStatistic.Record","TestStatistic.State","TestStatistic.Limit","TestStatistic.Value"])
p("C11","A detector alarms exactly when its smoothed statistic crosses the limit",
 "While testing, each observation moves the statistic to lambda*observation+(1-lambda)*previous, and the detector trips on the first observation that takes it to or past the limit in the direction being tested, and on no other. Once tripped it stays alarmed, with the statistic and limit frozen, until it is manually transitioned.",
 ["inputs","histories","configurations"],"every observation sequence after every baseline, in both directions",
 "the tests feed a large random shift and only check that an alarm eventually happens",
 ["pkg/stat/estimator.go","pkg/stat/state.go"],
 [("TestStatistic.Record","pkg/stat/estimator.go"),("calculateCurrent","pkg/stat/estimator.go"),("HasAlarmed","pkg/stat/estimator.go")],None,
 ["TestStatistic.HasAlarmed","TestStatistic.Value","TestStatistic.State"])
p("C12","An undefined observation is refused and changes nothing",
 "An observation that is NaN or infinite, or that has no finite logarithm for a log-normal detector, makes Record return an error, and neither the detector's state, value, limit nor its baseline is affected by it, whatever state the detector is in.",
 ["inputs","histories"],"every undefined observation at every point of every history",
 "no test records an undefined observation",
 ["pkg/stat/estimator.go","pkg/stat/pdf.go"],[("TestStatistic.Record","pkg/stat/estimator.go"),("LogNormal.Transform","pkg/stat/pdf.go")],None,
 ["TestStatistic.Record","Test.Record"])
p("C13","A composite test alarms iff one of its statistics does",
 "A composite test feeds every defined observation to each of its statistics, is alarmed exactly when at least one of them is, reports all their states in order, and forwards a manual transition to every one of them even when some refuse it, reporting an error if any did. Its metrics name every statistic's current value and limit, distinguishable by strategy, and reading them does not change the test's own name. When a test is done, the sampling of every one of its statistics ends.",
 ["inputs","histories","configurations"],"every combination of sub-statistics and their states, every observation and transition sequence",
 "the tests use composites of a single statistic",
 ["pkg/stat/stattest.go"],[("Test.Record/Transition/HasAlarmed","pkg/stat/stattest.go"),("Test.Metric","pkg/stat/stattest.go")],None,
 ["stat.NewLogNormalTest","stat.NewPoissonTest","Test.HasAlarmed","Test.Metric"])
p("C14","A lower accepted error rate always gives a wider control limit",
 "For every positive error rate the computed k is (ln(rate)-a)/b with the calibrated constants of the distribution in use, so a smaller rate yields a strictly larger k; a rate whose logarithm is undefined yields an error rather than a limit. A fixed k is used unchanged. The limit used for an undefined rate is a finite default.",
 ["inputs"],"every error rate and every fixed k",
 "three error rates of one distribution are compared with tabulated k within 0.02",
 ["pkg/stat/k.go","pkg/stat/kconst_gen.go","pkg/stat/estimator.go"],[("KErrorRate.calculate","pkg/stat/k.go"),("calculateLimit","pkg/stat/estimator.go")],None,
 ["stat.KErrorRate.CalculateLN","stat.KErrorRate.CalculateP","stat.KFixed"])
p("C15","Every event reaches each interested subscriber exactly once",
 "An event dispatched on some topics is delivered, intact, once per matching topic to every subscriber of those topics and once to every default subscriber, and to nobody else, as long as the bus is not shut down and the subscribers keep receiving; one slow subscriber does not keep others from receiving. The order of different events is not promised. Dispatching and subscribing never modify the caller's topic list.",
 ["schedules","inputs","histories"],"every assignment of subscribers to topics, every set of dispatched topics, every interleaving of the dispatching goroutines and subscribers",
 "the tests dispatch one event to one or two subscribers under the runtime's schedule",
 ["pkg/eventbus/bus.go"],[("EventBus.Dispatch","pkg/eventbus/bus.go"),("EventBus.subscribe","pkg/eventbus/bus.go")],None,
 ["EventBus.Subscribe","EventBus.Dispatch"])
p("C16","No use of the event bus can crash or wedge the process",
 "No interleaving of Subscribe, Dispatch, Unsubscribe and Shutdown, with subscribers on any combination of topics, panics, and none blocks these calls forever; a subscriber that stops receiving cannot keep Subscribe, Dispatch or Shutdown by others from completing. Unsubscribing closes the subscriber's channel and it receives nothing more.",
 ["schedules","histories","inputs"],"every interleaving of bus operations from several goroutines with up to a few subscribers and events in flight",
 "the tests unsubscribe single-topic subscribers with no event in flight",
 ["pkg/eventbus/bus.go"],[("EventBus.Unsubscribe","pkg/eventbus/bus.go"),("EventBus.Dispatch","pkg/eventbus/bus.go"),("EventBus.Shutdown","pkg/eventbus/bus.go")],None,
 ["EventBus.Subscribe","EventBus.Dispatch","EventBus.Unsubscribe","EventBus.Shutdown"])
p("C17","Shutdown tells every subscriber and waits for all of them or the deadline",
 "Shutdown closes the channel of every subscriber, returns nil only after every subscriber has called its shutdown function, and otherwise returns the timeout error once the context is done, never later. After Shutdown has begun no further event is delivered. A shutdown function may be called any number of times.",
 ["schedules","histories"],"every interleaving of Shutdown with dispatches, slow or stuck subscribers and context cancellation",
 "the tests use idle subscribers that all either finish or all time out",
 ["pkg/eventbus/bus.go"],[("EventBus.Shutdown","pkg/eventbus/bus.go"),("shutdownNotify","pkg/eventbus/bus.go"),("doneCloser.close","pkg/eventbus/bus.go")],None,
 ["EventBus.Shutdown","eventbus.ShutdownFunc"])
p("C18","The log history keeps exactly the last N lines",
 "A queue of capacity N holds the most recent min(N, added) strings in order, never more than N, for every N including 0 and 1, and adding never panics. A copy taken earlier is unaffected by later adds or Clear, Clear empties the queue without changing its capacity, and concurrent use neither races nor deadlocks.",
 ["inputs","histories","schedules"],"every capacity and every sequence of Add/Copy/Clear, every interleaving of concurrent callers",
 "the tests use capacity 2 and at most three adds",
 ["pkg/monny/proc/queue.go"],[("Queue.Add/pop","pkg/monny/proc/queue.go"),("Queue.Copy/Clear","pkg/monny/proc/queue.go")],None,
 ["proc.NewQueue","Queue.Add","Queue.Copy"])
p("C19","Every log line is echoed, published and remembered exactly once, in order",
 "For every line a log source produces, the processor writes the line and a newline once, in source order, to each sink configured for that source (stdout never to the stderr sink or the reverse), publishes one event carrying exactly that line, and keeps it in the source's history; Wait returns nil only after all sources are fully processed. The options select sources, sinks and history size with the same effect in whatever order they are passed, and a failing sink is reported as an error event without stopping other sinks or later lines.",
 ["inputs","schedules","configurations","fault_sequences"],"every line content and count, every option order, every interleaving of the two sources, every write failure",
 "the tests look at the filter functions only; no test runs the processor on any output",
 ["pkg/monny/proc/logs.go","pkg/monny/proc/logopt.go"],[("startLogEmitter","pkg/monny/proc/logs.go"),("NewLogProcessor","pkg/monny/proc/logs.go"),("filterSink/filterSource","pkg/monny/proc/logopt.go")],None,
 ["proc.NewLogProcessor","LogProcessor.Wait"])
p("C20","A ticker stops for good when the bus shuts down",
 "A ticker dispatches events of its type while the bus runs and, once the bus is shut down, acknowledges the shutdown, stops its timer and ends its goroutine: it dispatches nothing more and consumes no further processor time. A zero period creates no ticker.",
 ["schedules","histories"],"every interleaving of ticks with shutdown",
 "the test counts ticks over one second and ignores what happens after shutdown",
 ["pkg/monny/proc/ticker.go"],[("NewTicker","pkg/monny/proc/ticker.go")],None,["proc.NewTicker"])
p("C21","Configuration values mean what the user wrote or are rejected",
 "A memory limit of n, nK, nM or nG yields n, n, 1000n and 1000000n and any text that is not a non-negative integer with at most one such suffix, or that does not fit, is rejected with an error; history sizes, quantities, host:port and JSON rule field:pattern pairs are taken literally or rejected. If any option is invalid, or no id is given, construction fails with an error for each and no command is created.",
 ["inputs","configurations"],"every option text up to the bound and every combination of valid and invalid options",
 "one valid and one invalid text per option",
 ["pkg/monny/config.go","pkg/monny/parse.go"],[("MemoryWarn/MemoryKill","pkg/monny/config.go"),("newConfig","pkg/monny/config.go"),("Host","pkg/monny/config.go"),("handleOption","pkg/monny/parse.go")],None,
 ["monny.New","monny.ConfigOption"])
p("C22","A setting has the same effect from the command line and from a file",
 "Each documented setting given in the configuration file produces the same configuration as the corresponding command line flag, a boolean switch takes effect exactly when it is set to true, repeated and listed values are each applied exactly once and in order, and unknown settings are rejected. The user's command and its arguments, given after --, are passed through untouched.",
 ["inputs","configurations"],"every combination of settings and boolean values within the bound, every map iteration order",
 "one setting at a time, booleans only ever true, lists alone in the file",
 ["pkg/monny/parse.go"],[("parseFromFile","pkg/monny/parse.go"),("parseFlag/handleOption","pkg/monny/parse.go")],None,
 ["monny.ParseCommandLine"])
p("C23","A rule matches a line exactly when its pattern occurs in the selected text",
 "For each output line and each rule, exactly one match carrying the full line and all match positions is recorded when the pattern occurs in the line (or, for a JSON rule, in the text of the selected, possibly nested, field), and none otherwise. A line that is not JSON or lacks the field never matches a JSON rule whose pattern needs at least one character, and no line content can crash the monitor.",
 ["inputs","configurations"],"every line up to the bound, every field path, every JSON value kind, several rules at once",
 "fixed lines with one rule each; malformed or partial JSON is never tried",
 ["pkg/monny/command.go"],[("checkRule","pkg/monny/command.go"),("extractTextFromJSON","pkg/monny/command.go")],None,
 ["Command.RuleMatches"])
p("C24","Reports carry the last N output lines and output passes through unchanged",
 "The stdout and stderr histories hold exactly the most recent lines of that stream, at most the configured number, for every configured number including 0 and 1; every line of the monitored process is also written to monny's own corresponding stream once and in order. Lines of one stream never appear in the other, and no amount of output crashes the monitor.",
 ["inputs","histories","configurations","schedules"],"every number of lines relative to the limit, every line content, every interleaving of the two streams",
 "one test prints a single line with the default limit of 30",
 ["pkg/monny/command.go"],[("Command.processStdout/processStderr","pkg/monny/command.go"),("Command.Exec scanners","pkg/monny/command.go")],None,
 ["Command.Stdout","Command.Stderr"])
p("C25","The recorded outcome is what happened to the process",
 "Success is recorded exactly when the process exits with status zero and every expected file exists; otherwise the failure, exit code, missing file, kill and its cause (timeout, memory or signal) are recorded as they occurred. The duration is the non-negative time from start to finish, peak memory is the largest measurement, and a kill limit kills the process and an interrupt is forwarded to it. All of this holds as soon as the process and its output have ended, even when what is piped into monny has not. When a process ends in the same instant as a limit passes, either may be recorded.",
 ["inputs","histories","configurations","fault_sequences"],"every exit status, signal, memory reading, limit and file state",
 "one exit status, one file, one limit each; durations are compared in absolute value or merely for being non-zero",
 ["pkg/monny/handlers.go","pkg/monny/command.go"],[("handler.Finished/Signal/Timeout/CheckMemory/KillOnHighMemory","pkg/monny/handlers.go"),("handleFileCreation","pkg/monny/handlers.go")],None,
 ["Command.Success","Command.Killed","Command.KillReason","Command.Duration","Command.ReportReason"])
p("C26","A notification is sent exactly when the configuration calls for it",
 "A report is transmitted for a success or failure unless that notification is switched off, always for a kill or a missing file, for start only as a daemon, for a rule match always or, with a quantity set, only when at least that many matches fall within the period, and exactly once for the first crossing of a memory or time warning limit. Matches already reported by a delivered alert are not counted again, and a failed delivery is reported as an error, never a crash.",
 ["inputs","histories","configurations","fault_sequences"],"every configuration, reason, match history and clock, and every delivery result",
 "each reason is tried once with delivery always succeeding, and the warning handlers are tested apart from the sender they call",
 ["pkg/monny/report.go","pkg/monny/handlers.go"],[("Report.Send","pkg/monny/report.go"),("calcAlertRate","pkg/monny/report.go"),("handler.TimeWarning/CheckMemory","pkg/monny/handlers.go")],None,
 ["ReportSender.Send","pb.ReportsClient.Create"])
p("C27","Monny does not exit before its reports are delivered",
 "Wait returns only when every report that the finished run called for has been delivered or has definitively failed, whatever the scheduling of the background senders and however often deliveries fail before succeeding; a transiently failing delivery is retried and no schedule or delivery failure panics.",
 ["schedules","fault_sequences"],"every interleaving of the run, its report senders and Wait, every delivery failure pattern within the bound",
 "tests replace the sender by a mock or call it synchronously; Wait is never raced against a pending send",
 ["pkg/monny/report.go","pkg/monny/command.go"],[("Report.Send/Wait","pkg/monny/report.go"),("senderService.sendBackground/wait","pkg/monny/report.go")],None,
 ["Command.Wait"])
p("C28","A report faithfully describes the run it is about",
 "Every field of a transmitted report equals the corresponding recorded fact of the run at the time of sending: identity, host, captured output, outcome, exit code, kill and its cause, memory, times, matches, created files, messages, command line, and the reason the report was sent for, with reasons and causes carrying the same meaning on both ends. Bytes that are not valid UTF-8 appear as the replacement character, and never keep a report from being delivered.",
 ["inputs"],"every recorded run state and every reason",
 "the report builder is only used as an opaque value in tests; no field is ever compared",
 ["pkg/monny/report.go","pkg/proto/enum.go","pkg/pb/report.pb.go"],[("reportFromCommand","pkg/monny/report.go")],None,
 ["pb.Report"])
p("C29","Reports travel over TLS unless the user opted out",
 "Every connection made to deliver a report uses TLS credentials unless the insecure option was given, in which case none does, and goes to the configured host and port (report.lmkwtf.com:443 by default); TLS connections verify the server; no option other than insecure, no number of reports and no delivery failure changes this.",
 ["configurations","histories","fault_sequences"],"every combination of options and every sequence of reports, failures and retries",
 "one insecure connection is made in a test; the default is never observed",
 ["pkg/monny/report.go","pkg/monny/config.go"],[("senderService.create","pkg/monny/report.go"),("Insecure","pkg/monny/config.go")],None,
 ["grpc.Dial options"])
p("C30","Reason and kill names are total, distinct and agree with the wire",
 "Every report reason and kill reason value, including out-of-range ones, renders to text without crashing; defined values render to their own name, distinct from all others, and carry the same number and name as in the wire protocol.",
 ["inputs"],"every 32-bit value",
 "no test renders a reason",
 ["pkg/proto/enum.go","pkg/proto/enum_string.go","pkg/pb/report.pb.go"],[("KillReason.String/ReportReason.String","pkg/proto/enum_string.go")],None,
 ["proto.ReportReason.String","proto.KillReason.String"])
p("C31","Simulated Poisson and log-normal draws stay in the distribution's support",
 "A Poisson generator only ever returns non-negative integers and a log-normal generator only positive values (up to floating-point overflow and underflow), and each Poisson draw is the count Knuth's algorithm gives for the uniform draws it consumed and each log-normal draw is exp(mean + stdev*z) for the normal draw z.",
 ["inputs"],"every sequence of underlying random draws and every parameter",
 "one statistical test of the log-normal mean",
 ["pkg/rng/poisson.go","pkg/rng/lognormal.go"],[("PoissonRNG.Rand","pkg/rng/poisson.go"),("LogNormalRNG.Rand","pkg/rng/lognormal.go")],None,
 ["rng.NewPoissonRNG","rng.NewLogNormalRNG"])
p("C32","Event payloads decode to what was published, independent of the publisher",
 "Decoding an event into a receiver of the published type yields an equal value, whatever the receiver held before, and decoding into an incompatible type is an error and not a crash, and the payload does not change when the publisher later modifies the value it published. An event built from an error is created without failing and decodes to that error's text.",
 ["inputs","histories"],"every payload value of the supported types",
 "one struct, one byte slice; the error payload test fails",
 ["pkg/eventbus/event.go"],[("NewEvent/Decode/NewErrorEvent","pkg/eventbus/event.go")],None,
 ["eventbus.NewEvent","Event.Decode"])
p("C33","Errors monny reports about itself carry nothing of the user's",
 "An error report consists of the text of monny's own error and nothing else: no output line, no part of the user's command, input, identity, environment, file names or configuration, and never a report or its content. When error reports are switched off none is sent, whatever fails.",
 ["fault_sequences","configurations","schedules"],"every failure of monny's own streams, its stdin, the process's stdin and report delivery, with and without the option",
 "no test looks at what is sent to the error reporting service",
 ["pkg/monny/error.go","pkg/monny/report.go","pkg/monny/command.go"],[("errorService.ReportError","pkg/monny/error.go"),("NoErrorReports","pkg/monny/config.go"),("calls of ReportError","pkg/monny/report.go, pkg/monny/command.go")],None,
 ["rollbar.Error"])
p("C34","The user's command is run once, as it was given, with its input",
 "Exec starts exactly one process: the user's program with exactly the user's arguments, in order and unchanged, whatever options are set. What is piped into monny reaches that process completely and in order and its input then ends; without a pipe its input ends at once. A missing command, or one that cannot be started, is an error and never a crash.",
 ["inputs","configurations","schedules"],"every argument text and number of arguments, every input and way it is cut into reads, every combination of switches",
 "tests run echo with one argument and never pipe anything in",
 ["pkg/monny/command.go"],[("Command.Exec","pkg/monny/command.go"),("wrapComplexCommand","pkg/monny/command.go")],None,
 ["Command.Exec","os/exec.Cmd"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
