#!/usr/bin/env python3
# Writes specs/*.json (C01 and C02 included below).
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from notes import N as NOTES
DOC={}
for f in glob.glob(root+'/harness/**/*.go',recursive=True):
    pk=os.path.dirname(f)[len(root+'/harness/'):]
    pk=pk[3:] # zz/ or in/
    for m in re.finditer(r'((?://[^\n]*\n)+)func ([A-Z]\w*)\(([^)]*)\)',open(f).read()):
        t=' '.join(l[2:].strip() for l in m.group(1).strip().split('\n'))
        t=t.split(': ',1)[1] if t.startswith(m.group(2)+':') else t
        DOC[pk,m.group(2)]=(m.group(3),t)
def spec(p,hs,**k):
    b,o,a=NOTES[p]
    d={'property':p,'harnesses':hs,'outside':o,'assumptions':a,
       'level_note':'Every path of the real code within the bound is explored and every assertion decided by the solver. Bound: '+b+' (quick: '+', '.join(h['func']+str(h['quick']).replace(' ','') for h in hs)+').'+(' Outside: '+o+'.' if o else '')+' Trusts: '+'; '.join(a)+'.'}
    d.update(k)
    json.dump(d,open(f'/verif/specs/{p}.json','w'),indent=1)
def h(pkg,func,quick,thorough=None,bound='',**k):
    a,t=DOC[pkg,func]
    d={'pkg':pkg,'func':func,'quick':quick,'bound':bound or f'({a}) {t}'}
    if thorough is not None: d['thorough']=thorough
    d.update(k); return d
F='hfsm'
spec('C01',[h(F,'Machine',[[0,2],[1,3],[2,2],[3,1]],[[1,4],[2,3],[3,2]],native=True),h(F,'Named',[[1,2,2],[2,1,2]],[[1,2,4],[2,2,2]],native=True)])
spec('C02',[h(F,'Nonce',[[1,2],[2,1]],[[1,3],[2,2]],native=True)])
M='hmetric'
spec('C03',[h(M,'Counter',[[4]],[[6]],native=True),h(M,'Concurrent',[[2,2],[3,1]],[[2,3],[3,2]]),h(M,'ConcurrentZero',[[2,1]],[[2,2]]),h(M,'ConcurrentWindowed',[[2,1,1]],[[2,1,2],[2,2,1]])])
spec('C04',[h(M,'Windowed',[[3,0],[3,1]],[[4,0],[5,1]],native=True,faketime=True),h(M,'EmptyWindowed',[[3]],native=True,faketime=True)])
spec('C05',[h(M,'History',[[4,0],[4,1],[4,2],[3,3]],[[5,0],[5,1],[5,2],[5,3]],native=True,faketime=True),h(M,'HistoryDeep',[[5,0],[5,1],[2,2],[1,3]],[[9,0],[9,1],[3,2],[3,3]],native=True,faketime=True)])
spec('C06',[h(M,'SeriesOps',[[0,0,0],[1,0,3],[2,0,4],[3,2,3],[2,5,2]],[[4,0,7],[3,7,5]],native=True),h(M,'SeriesLong',[[3,10],[7,30]],[[16,100]],native=True)])
spec('C07',[h(M,'Sampled',[[1,2,2,0],[2,1,2,0],[1,1,1,1]],[[2,2,2,0],[1,3,3,0],[2,1,2,1]]),h(M,'SampledTick',[[2,1],[2,2]],[[3,2],[2,3]]),h(M,'SampledReset',[[2]]),h(M,'SampledDirect',[[0,1],[2,1],[2,3]],[[3,5]])])
spec('C08',[h(M,'Strategies',[[0],[1],[2],[3],[4]],[[5],[6],[7]],native=True,rounding=True)])
spec('C09',[h(M,'NameRender',[[1,0,1],[0,1,1],[2,0,1],[1,1,1],[0,2,1]],[[2,1,1],[1,2,1],[1,0,2]],native=True),h(M,'NameNone',[[]],native=True),h(M,'NameDistinct',[[1,0,1,0,1,1],[1,0,0,1,1,1],[0,1,0,1,1,1],[2,0,1,1,1,1],[1,0,1,0,2,1]],native=True),h(M,'NameCopy',[[0],[1],[2],[3]],native=True)])
S='hstat'
spec('C10',[h(S,'Baseline',[[0,2,4],[1,1,2],[1,2,3],[2,2,4],[3,2,4],[0,0,0],[0,1,2]],[[0,3,5],[1,3,5],[2,3,5]],rounding=True),h(S,'Again',[[2,2,2,3],[0,2,1,2],[3,1,2,2],[1,1,2,3],[3,2,2,3]],[[2,2,3,2],[0,2,2,3],[3,2,4,4]],rounding=True),h(S,'Windowed',[[1,2,1],[2,3,2]],[[2,4,3]])])
spec('C11',[h(S,'Crossing',[[0,0,3],[0,1,3],[0,2,2],[1,0,3],[1,1,3],[1,2,2]],[[0,1,6],[1,1,6],[0,2,3],[1,2,3]],rounding=True),h(S,'Full',[[2,2,2],[3,2,2],[3,1,3]],[[0,2,2],[1,2,3]],rounding=True)])
spec('C12',[h(S,'Undefined',[[2,2,3],[1,1,3],[1,2,3]],[[0,2,4],[1,1,4],[1,2,4]],rounding=True),h(S,'UndefinedComposite',[[2]],[[3]],rounding=True)])
spec('C13',[h(S,'Composite',[[1,2],[9,3],[6,3],[14,2]],[[9,4],[27,3],[57,3]],rounding=True),h(S,'Metrics',[[0,1],[1,2],[2,2]],[[2,3]],rounding=True),h(S,'Defaults',[[0],[1]]),h(S,'Finished',[[1,0],[2,0],[2,1]],[[3,0],[3,1]])])
spec('C14',[h(S,'Rate',[[0],[1]],rounding=True),h(S,'Fixed',[[]],rounding=True),h(S,'LimitRate',[[0],[1]],rounding=True)])
B='heventbus'
gob=dict(models=['mgob'])
spec('C15',[h(B,'Deliver',[[1,1,0],[2,1,0],[1,2,0],[1,2,1]],[[2,2,0],[2,2,1],[3,1,0]]),h(B,'Slow',[[2]],[[3]]),h(B,'Caller',[[2]],[[3]]),h(B,'Moving',[[]]),h(B,'Story',[[2]],[[3]])],**gob)
spec('C16',[h(B,'Wedge',[[2,0,1,1],[2,3,3,1],[2,1,1,2],[3,0,1,0]],[[2,1,3,2],[3,3,3,1],[3,0,3,1]]),h(B,'Sequence',[[3,3,0],[3,1,3]],[[4,3,3]]),h(B,'Stuck',[[1],[2]],[[3]])],**gob)
spec('C17',[h(B,'Down',[[1,1,0],[1,1,1],[2,0,0],[2,0,1]],[[2,1,0],[2,1,1],[1,2,1]]),h(B,'After',[[0],[3]]),h(B,'Unread',[[1,0],[2,3]],[[3,0]]),h(B,'Deadline',[[1]],[[2]]),h(B,'Acknowledge',[[2]],[[3]]),h(B,'Leaving',[[2,0,0],[2,0,1],[2,1,0],[2,1,1],[2,2,0],[3,0,0]],[[3,1,0],[3,1,1],[3,2,0]])],**gob)
spec('C32',[h(B,'Payload',[[1],[2]],native=True),h(B,'Reused',[[1],[2]],[[3]],native=True),h(B,'Kinds',[[0],[1],[2],[3],[4]],native=True),h(B,'Nothing',[[]],native=True),h(B,'Error',[[0],[1],[2],[3],[4]],native=True)],**gob)
P='hproc'
pm=dict(models=['mgob','mos'])
spec('C18',[h(P,'QueueOps',[[0,4],[1,5],[2,6],[3,6]],[[1,7],[2,8],[4,8]],native=True),h(P,'QueueLong',[[0,3],[1,5],[5,12]],[[30,70]],native=True),h(P,'QueueShared',[[1,2,1,1],[2,2,1,1],[2,2,2,0],[0,2,1,0]],[[2,2,2,1],[2,3,1,1]])])
spec('C19',[h(P,'Text',[[2,1,2],[2,0,1],[3,0,0]],[[3,1,1],[2,2,1],[4,0,2]]),h(P,'Piped',[[3,1]],[[4,2]]),h(P,'Options',[[0],[1],[2]],[[3]]),h(P,'Defaults',[[]]),h(P,'Failing',[[2]],[[3]]),h(P,'Sinks',[[1]],[[2]]),h(P,'Long',[[64],[130]],[[1000]]),h(P,'Broken',[[0],[2]]),h(P,'Waiting',[[1]],[[2]]),h(P,'NoPipe',[[0],[1]])],**pm)
spec('C20',[h(P,'Ticker',[[1,1],[2,0],[2,1]],[[3,1]]),h(P,'Ticking',[[1],[2]],[[3]]),h(P,'NoTicker',[[]]),h(P,'Foreign',[[1,1]],[[1,2],[2,1]])],**pm)
Q='hmisc'
spec('C30',[h(Q,'ReportReasons',[[]],native=True),h(Q,'KillReasons',[[]],native=True),h(Q,'Distinct',[[]],native=True)])
spec('C31',[h(Q,'Poisson',[[1,4],[2,4]],[[1,6],[3,6]],rounding=True),h(Q,'PoissonLong',[[130],[300],[33000]],[[66000]]),h(Q,'PoissonZero',[[]],rounding=True),h(Q,'LogNormal',[[2]],[[4]],rounding=True)],models=['mrand'])
N='hmonny'
import functools
hn=functools.partial(h,N,livelock=600)
hc=functools.partial(h,'cmd/monny',livelock=600)
mm=dict(models=['mos','mgrpc','mjson','mrollbar','mbackoff','mrand','myaml'])
spec('C24',[hn('Output',[[2,1,1,2],[3,1,1,0],[2,2,0,1],[3,0,2,30]],[[4,1,1,1],[2,3,2,0],[5,0,2,0]]),hn('OutputMany',[[4,2,0],[4,1,1],[33,-1,0],[32,-1,1],[2,0,1]],[[12,5,0],[40,39,1]]),hn('OutputLong',[[64,0],[130,1]],[[1000,0]]),hn('OutputFailing',[[3,0],[2,1]],[[5,0],[4,1]])],**mm)
spec('C25',[hn('Finished',[[0],[1]],[[2]]),hn('Timeout',[[10,0],[10,1]],[[500,1]]),hn('Interrupted',[[0],[1]]),hn('Memory',[[1,2],[2,1]],[[2,2],[3,1]]),hn('Unmeasured',[[0],[1]]),hn('InputOpen',[[0],[1]],[[2]]),hn('NotStarted',[[0],[1],[2],[3]])],**mm)
spec('C26',[hn('Outcome',[[0],[1]],[[2]]),hn('OutcomeKilled',[[0],[1],[2]]),hn('WarnTime',[[0],[1]]),hn('WarnMemory',[[1,0],[3,0],[4,1]],[[4,0],[6,1]]),hn('Alert',[[1,0]],[[2,0],[1,1]]),hn('AlertRules',[[1]],[[2]]),hn('Rate',[[3,2,0],[3,1,0],[2,2,5]],[[5,2,0],[4,3,0],[3,2,5]]),hn('RateAtOnce',[[1,2]],[[2,2],[2,1]]),hn('Undelivered',[[0],[1]])],**mm)
spec('C27',[hn('Retried',[[0,1,1],[1,1,0],[2,1,0]],[[0,2,1],[1,2,1],[2,2,1],[3,1,0]]),hn('GivenUp',[[2]],[[3]]),hn('Unanswered',[[0],[1]]),hc('Delivers',[[0,1],[1,0],[2,0],[3,0],[4,0]],[[2,1],[3,1],[1,1],[5,0]])],**mm)
spec('C28',[hn('Ended',[[2,1,0,1],[0,1,1,3]],[[3,1,0,2],[2,2,1,1]]),hn('Stopped',[[0],[1],[2]]),hn('StoppedMatching',[[0],[1]]),hn('Running',[[2,1],[2,3]],[[3,2]]),hn('NotText',[[0,2],[1,2],[2,2],[3,2],[4,2],[5,2]],[[0,4],[1,3],[2,3],[4,4],[5,3]])],**mm)
spec('C29',[hn('Secure',[[1]],[[2]]),hn('SecureHost',[[3,1],[9,4]],[[16,5]]),hn('SecureTwice',[[0,0],[1,0]],[[0,1],[1,1]])],**mm)
spec('C33',[hn('Private',[[0],[1],[2],[3],[4],[5],[6],[7],[8]])],**mm)
spec('C34',[hn('Command',[[0,0],[1,3],[2,2]],[[3,3]]),hn('Stdin',[[3,1],[0,1]],[[5,2]]),hn('NoCommand',[[0],[1]]),hc('Runs',[[0,0],[1,3],[2,1]],[[3,2]])],**mm)
spec('C21',[hn('MemoryText',[[0,0],[1,0],[2,1],[3,0],[4,1]],[[5,0],[6,1]]),hn('MemoryBig',[[0],[1]]),hn('MemoryHuge',[[0,3,15],[1,3,18]],[[0,6,17],[1,6,14]]),hn('SizeBig',[[0,3,9],[1,3,12],[2,3,18]],[[0,6,18],[1,6,9]]),hn('TimeParts',[[0],[1]],[[2]]),hn('SizeText',[[0,0],[1,0],[2,1],[3,0],[3,2]],[[5,0],[5,1],[5,2]]),hn('TimeText',[[0,0],[0,1],[0,2],[2,0]],[[3,1],[3,2]]),hn('HostText',[[0],[1],[3]],[[5]]),hn('Names',[[0],[2]],[[4]]),hn('ShellText',[[0],[2]],[[3]]),hn('Combined',[[4,0],[4,4],[4,8],[4,10]],[[7,0],[7,6]]),hn('FreeText',[[3,1],[3,3]],[[3,4]]),hc('Refuses',[[0,0],[0,1],[0,2],[1,0],[2,0],[3,0],[4,0],[5,1]],[[0,4],[5,2],[5,3]])],**mm)
spec('C22',[hn('SameText',[[i] for i in range(10)]),hn('SameNumber',[[0,1],[1,2]],[[0,4],[1,5]]),hn('SameBool',[[i] for i in range(5)]),hn('Lists',[[2,1,0],[1,0,2],[0,2,1]],[[3,1,1],[2,2,2]]),hn('Several',[[4,0],[3,4],[3,7],[3,10]],[[6,0],[6,6]]),hn('Unknown',[[3],[7]],[[4],[5]]),hn('WrongKind',[[0],[1],[2],[3]]),hn('PassThrough',[[0,0],[1,3],[3,2]],[[4,4]]),hn('PassNames',[[2]],[[4]]),hn('Ordered',[[3]],[[4]]),hn('FreeText',[[0,0],[0,2],[1,0],[1,2],[2,0],[2,2],[3,0],[3,1],[3,3]],[[0,4],[1,4],[2,3],[3,4]]),hn('SameBig',[[0,2],[1,3],[2,2],[3,3],[0,5],[0,1]],[[0,0],[0,3],[0,4],[1,2],[1,5],[2,5],[3,1],[2,3],[3,5],[3,4]])],**mm)
spec('C23',[hn('Literal',[[3,0],[3,1],[2,2],[3,3],[2,4]],[[6,0],[5,1],[5,2],[5,3]]),hn('Pattern',[[2,0],[2,1],[2,2],[3,3],[1,4],[2,5],[2,6]],[[4,0],[4,1],[3,2],[4,3],[3,5],[3,6]]),hn('Lines',[[2],[3]],[[5]]),hn('Long',[[1,12,0],[1,300,1],[1,20,2]],[[2,40,0],[1,5000,1]]),hn('Often',[[4]],[[5]]),hn('AnyText',[[0],[2],[3]],[[5]]),hn('Framed',[[1,0],[3,0]],[[4,0]]),hn('Field',[[0],[1]],[[2]]),hn('Number',[[i] for i in range(5)]),hn('Both',[[2]],[[4]]),hn('Mixed',[[3,1],[2,2]],[[4,1],[3,2]])],**mm)
