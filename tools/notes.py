# Per property: bound in words, what lies outside the claim, assumptions.
ENGINE='the encoding of Go SSA by the engine, and z3 (no proof is checked); counterexamples are replayed, with native execution of the compiled code where the harness allows it'
SCHED='goroutines interleave at synchronisation operations and at conflicting memory accesses; a data race is itself a violation, so sequential consistency is not assumed for racy code'
REAL='floating-point numbers are encoded as real numbers (NaN and infinities as separate cases); rounding is outside the claim'
LOG='math.Log, Exp and Sqrt are uninterpreted functions with their algebraic properties on the arguments used'
CLOCK='the clock is arbitrary but never goes backwards (Go uses monotonic time for the differences taken here)'
GOB='encoding/gob is modelled (mgob): a deep copy that fails for what gob cannot encode or decode; harnesses with native replay use the real one'
OSM='processes, pipes, files, signals and the environment are modelled (mos): a write and a read can be split and can fail at the points the harness opens'
NET='the gRPC connection is modelled at Dial/Invoke (mgrpc): every attempt may fail to connect, fail, be refused or stay unanswered; nothing below grpc.ClientConn is executed'
JSON='encoding/json is modelled (mjson): a JSON text whose structure is known has exactly the values the package gives, the keys in the bytes monny writes are those of the struct'
BACK='the random part of the back-off is any value in its documented range'
N={
'C01':('any edge set of up to the given number of edges over symbolic state names of one byte and any sequence of the given number of calls','longer names than the bound, more edges or calls',[ENGINE]),
'C02':('as C01 with wrong, truncated, extended, empty, earlier and current nonces; nonces are 16 symbolic bytes from the random source','concurrent use of one machine (the type does not promise it); collisions of the random source, which is assumed not to repeat',[ENGINE,'crypto/rand returns bytes that differ from all earlier draws']),
'C03':('the given number of goroutines and operations per goroutine, all interleavings','overflow of int',[ENGINE,SCHED,CLOCK]),
'C04':('any clock reading before every call, any durations, the given number of calls','clocks stepping backwards',[ENGINE,CLOCK]),
'C05':('any clock, any limits, the given number of operations and of closed windows','longer histories',[ENGINE,CLOCK]),
'C06':('the given capacity and number of operations on any values','capacities beyond the bound; rounding (values are only moved)',[ENGINE]),
'C07':('the given number of goroutines, observations and ticks, all interleavings','a tick that is dropped because the sampling goroutine is behind ends a window later, as with any Go ticker',[ENGINE,SCHED,REAL]),
'C08':('up to the given number of observations, of any value including NaN and infinities','rounding of sums',[ENGINE,REAL]),
'C09':('the given number of pairs and annotations with symbolic keys and values of up to the given lengths, every map order','bytes logfmt has to quote are covered only within the length bound',[ENGINE]),
'C10':('any observations, any lambda in (0,1] and k in [0,10] up to the given capacity and length','larger capacities (the code is uniform in the capacity); rounding',[ENGINE,REAL,LOG]),
'C11':('any observations, mean, k; lambda any, 1 or 1/4; the given number of observations','rounding: a statistic that equals its limit only after rounding',[ENGINE,REAL,LOG]),
'C12':('an undefined observation at any place of the given number of observations','',[ENGINE,REAL,LOG]),
'C13':('every combination of the given statistics and every sequence of the given number of operations','',[ENGINE,REAL,LOG]),
'C14':('every error rate including NaN, infinities and non-positive ones','rounding',[ENGINE,REAL,LOG]),
'C15':('the given number of subscribers, events and topics in any combination, all interleavings','fairness: a subscriber that keeps receiving is eventually scheduled',[ENGINE,SCHED,GOB]),
'C16':('up to three operations at once and four in a row on any of three layouts of topics','more operations at once',[ENGINE,SCHED,GOB]),
'C17':('the given number of subscribers and events, a context that is cancelled at any time or never','',[ENGINE,SCHED,GOB]),
'C18':('any sequence of operations up to the given length, all interleavings of the given goroutines','negative capacities',[ENGINE,SCHED]),
'C19':('any bytes on both streams up to the given length, read in any pieces; all options in all orders; long lines of a fixed content','lines of more than the given kilobytes',[ENGINE,SCHED,GOB,OSM]),
'C20':('up to the given number of ticks, a shutdown at any time','',[ENGINE,SCHED,GOB]),
'C21':('any text of up to the given number of bytes for each option, any combination of the given options','longer texts; shells found by a real PATH',[ENGINE,OSM]),
'C22':('each setting with each of its values in each of its forms; any subset of the given number of settings','YAML syntax itself: the file is modelled as the map the YAML library returns, in any map order (myaml)',[ENGINE,OSM,'github.com/go-yaml/yaml returns the values the YAML types denote (string, int, bool, uint64, list)']),
'C23':('any line of up to the given number of bytes against the listed patterns; JSON documents of the listed shapes with any value text','patterns not in the list (the regexp package is executed symbolically for those listed)',[ENGINE,SCHED,OSM,NET,JSON]),
'C24':('any bytes on both streams up to the given length, read in any pieces, any history sizes','',[ENGINE,SCHED,OSM,NET]),
'C25':('any exit status, file set and timing within the listed cases; memory maps of up to the given size','a process that is stopped or traced; operating systems other than Linux',[ENGINE,SCHED,OSM,NET,CLOCK]),
'C26':('all switches, up to the given number of matching lines, measurements and reports','start reports: nothing in the code sends one, so "only as a daemon" is vacuous; rule quantity and period have no command line flag and are set through the package',[ENGINE,SCHED,OSM,NET,JSON,CLOCK]),
'C27':('up to the given number of failed attempts in any of the ways they can fail, all interleavings','delivery attempts that take more than the hour monny allows are a definitive failure',[ENGINE,SCHED,OSM,NET,BACK]),
'C28':('the reports of the listed kinds of run with symbolic output, status, files and times; any bytes that are not valid text in each of the listed fields','',[ENGINE,SCHED,OSM,NET,JSON,CLOCK]),
'C29':('all options in any combination, host names and ports of up to the given number of bytes','what crypto/tls does with the credentials',[ENGINE,SCHED,OSM,NET,BACK]),
'C30':('every value of the types (32 bits)','',[ENGINE]),
'C31':('any rate and parameters, any uniform and normal draws, up to the given number of draws','the quality of math/rand; rounding',[ENGINE,REAL,LOG,'rand.Float64 returns any value in [0,1), NormFloat64 any finite value']),
'C32':('symbolic payloads of the listed types','types not listed',[ENGINE,GOB]),
'C33':('a failure at each of the places that report one, with a marked text in every piece of user data','what the rollbar client adds by itself (host name and stack trace)',[ENGINE,SCHED,OSM,NET]),
'C34':('any command of up to the given number of arguments of any bytes, any piped input of up to the given length','',[ENGINE,SCHED,OSM,NET]),
}
