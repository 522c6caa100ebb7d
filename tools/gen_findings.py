#!/usr/bin/env python3
# Writes known_findings.json: repaired defects (they suppress nothing) and the open ones.
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[]
def fixed(props,commit,what):
    for p in props.split():
        F.append({'property':p,'harness':'','label':'','where':'','what':what,'fixed':f'fixed: property={p} {commit} {what}'})
def known(prop,harness,label,where,what):
    F.append({'property':prop,'harness':harness,'label':label,'where':where,'what':what,'fixed':''})
fixed('C04','9171e64','WindowedCounter.Value of a counter without windowing was 0, not its count')
fixed('C05','a68780d','the history returned by a windowed counter shared memory with the counter and changed later')
fixed('C04','d99ac1c','adding to or reading a WindowedCounter made without its constructor panicked')
fixed('C09','953a543','adding metadata to a metric name created without any panicked (nil map)')
fixed('C10','f81c5d9','a detector in the reset state went on testing against the old limit instead of starting a new baseline')
fixed('C13','b944107','a composite test stopped at the first statistic that refused, leaving the others unrecorded or in another state')
fixed('C15','baae161',"Dispatch wrote to the backing array of its caller's list of topics")
fixed('C16','9c373d3',"a subscriber's channel could be closed twice, or sent on after it was closed (panic)")
fixed('C16 C17','cb589a5','publishing, subscribing or unsubscribing deadlocked while Shutdown waited for a subscriber')
fixed('C19','de688f4','NewEvent printed the payload of every event to stderr')
fixed('C32','a87839b','publishing a pointer and a value of the same type panicked in gob.Register')
fixed('C32','cf7a669','NewErrorEvent could not encode most errors, and a decoded error had no text')
fixed('C18','08bd871','a log history of zero or one lines panicked with an index out of range')
fixed('C20','0e9787e',"a ticker's goroutine was leaked when the bus shut down")
fixed('C19','098517d','a log line longer than 64 KB ended log processing silently')
fixed('C24','365c9db','the output history held another number of lines than configured')
fixed('C21','002ad12','a negative history size was accepted and crashed the monitor')
fixed('C24','de6f0f4','an output line longer than 64 KB ended monitoring of the stream and blocked the process')
fixed('C23','766c558','a JSON array of numbers in the output crashed the monitor')
fixed('C26','37f2699','a line that matches no rule raised an alert because an earlier line had matched')
fixed('C26','b43eb58','a delivered alert removed matches it had not reported, without the lock')
fixed('C26','81cb73b','memory and time warnings were never sent')
fixed('C26 C27','3c34315','a failed delivery crashed the monitor')
fixed('C27','699fcdd','a delivery was given up early, its context never cancelled, and a late result panicked on a closed channel')
fixed('C33','95434a6','the error reported for a delivery timeout contained the whole report')
fixed('C29','71f75b8','creating a report changed the connection options that another report was being sent with')
fixed('C29','0bf7ddd','the default report host could not be dialled')
fixed('C27','b201b34','monny could exit before the reports it had started were delivered')
fixed('C25','88f9c7c','the recorded duration of a process killed on timeout was negative')
fixed('C25 C26','7e18960','a run that did not create an expected file was reported as a success')
fixed('C24','b7c4a30','monny crashed when its standard input was closed')
fixed('C21','512ed33','negative and overflowing memory limits were accepted')
fixed('C21','9f4ff87','the shell option was overridden by the environment')
fixed('C22','0514c8d','a boolean option given as false took effect')
fixed('C22','89673eb','the lists in the configuration file were applied more than once')
fixed('C21','d5256c8','a JSON rule without a field was accepted')
fixed('C34','1d98854','monny crashed when it was given no command to run')
fixed('C31','882558e','a Poisson draw could be negative')
fixed('C33','83f7f5f','an error about a report that was not delivered carried the address of the configured server')
fixed('C28 C26','fc1fa78','a report with text that is not valid UTF-8 (a line of output, an argument, an id) could not be encoded and was never delivered')
fixed('C25','4ad4fbe','the end of a process was neither recorded nor reported while the input piped into monny stayed open')
fixed('C13','ee6cbda','the done function of a test whose statistics share a distribution left all but one of them sampling')
fixed('C32','498a6e6','an event decoded into a receiver used before kept its old values where the new ones are zero')
for f in F:
    if f['fixed']:
        c=f['fixed'].split()[2]
        assert subprocess.run(['git','-C','/repo','cat-file','-e',c]).returncode==0,c
json.dump({'findings':F},open(root+'/known_findings.json','w'),indent=1); open(root+'/known_findings.json','a').write('\n')
