base='''CONSTANTS
  Clients = {%s}
  UNK <- MUnk
  NOPOS = 0
  Defects = {%s}
  Fuzz = 0
  MaxOps = %d
  MaxT = %d
  Dt = 2
  Zone = 1
  Ops = {%s}
CHECK_DEADLOCK FALSE
'''
def w(name, clients, defects, ops, n, maxt=6, live=None, inv=('MCSafety',), sym=False):
    q=lambda xs: ', '.join('"%s"'%x for x in xs)
    s=('SPECIFICATION %s\n'%('LiveSpec' if live else 'MCSpec'))+base%(', '.join(map(str,clients)),q(defects),n,maxt,q(ops))
    if live: s+='PROPERTIES '+' '.join(live)+'\n'
    if inv: s+='INVARIANTS '+' '.join(inv)+'\n'
    open('/verif/spec/MCPlanner_%s.cfg'%name,'w').write(s)
core=['set','set0','app','mod','modg','mods','eval','plan','next']
w('a',[1],[],core,5)
w('two',[1,2],[],['set','app','modg','eval','plan','min'],4)
w('speed',[1],[],['set','speed','veh','eval','plot','app'],6)
w('del',[1,2],[],['set','app','eval','del','modg'],4)
w('live',[1,2],[],['set','app','mod','eval','plan','del'],3,live=['Returns','Ends','TakenOver'],inv=())
w('notice',[1,2],[],['set','eval','regen','app'],4)
INV=['PlanIsWhatWasAskedFor','PendingIsReported','NoDuplicates','InOrder','OwnPointsInFront','OneGeneration','ClockIsLastReal','SpeedIsLastSet','InstalledOnce','OneComputation','DeadIsQuiet','PassedStayOut','NoticeIsKept','SeenOneGeneration','NoSqueeze']
D=[('keepAdds','PlanIsWhatWasAskedFor',[1],['set','app','eval'],4),
('modCancels','PendingIsReported',[1],['set','mod','eval'],4),
('lateClear','PendingIsReported',[1],['set','app','eval'],4),
('planOnly','PlanIsWhatWasAskedFor',[1],['set','modg','eval'],4),
('modsLast','PlanIsWhatWasAskedFor',[1],['set','modg','app','eval'],5),
('unserialised','SeenOneGeneration',[1,2],['set','app','eval','plan'],5),
('clockBack','ClockIsLastReal',[1],['set','app','eval','plan'],5),
('noWait','DeadIsQuiet',[1],['set','del','eval'],4),
('overlap','OneComputation',[1],['set','app','eval'],4),
('staleZone','NoSqueeze',[1],['set','app','eval','plan'],6),
('keepPassed','PassedStayOut',[1],['set','app','eval'],5),
('splitNotice','NoticeIsKept',[1,2],['set','eval','regen'],5),
('doneFirst','OneGeneration',[1],['set','app','eval'],4),
('speedBack','SpeedIsLastSet',[1],['set','speed','eval'],4),
('plotMoves','ClockIsLastReal',[1],['set','plot','eval'],4)]
import sys
for d,i,c,o,n in D: w('x_'+d,c,[d],o,n,inv=[i])
