from pyvc.dsl import *

contract('mergeNames', 'C07', 'nimble.core.data._dataHelpers:mergeNames',
  dict(baseNames=Opt(List(Val('none','str'))),
       otherNames=Opt(List(Val('none','str')))),
  requires=['baseNames is None or otherNames is None or len(baseNames) == len(otherNames)'],
  ensures=['implies(otherNames is None, result is baseNames)',
   'implies(otherNames is not None and baseNames is None, result is otherNames)',
   '''implies(otherNames is not None and baseNames is not None,
       len(result) == len(baseNames) and all(result[i] == (baseNames[i] if baseNames[i] is not None else otherNames[i]) for i in range(len(baseNames))))'''])

contract('valueFromOneVOneData', 'C20', 'nimble.core.interfaces._interface_helpers:valueFromOneVOneData',
  dict(oneVOneData=List(Real()), posLabel=Int(0), negLabel=Int(0), numLabels=Int(1)),
  requires=['posLabel < numLabels and negLabel < numLabels', 'len(oneVOneData)*2 == numLabels*(numLabels-1)'],
  ensures=['implies(posLabel == negLabel, result is None)',
   'implies(posLabel < negLabel, result == oneVOneData[posLabel*numLabels - (posLabel*(posLabel+1))//2 + negLabel-posLabel-1])',
   'implies(posLabel > negLabel, result == -oneVOneData[negLabel*numLabels - (negLabel*(negLabel+1))//2 + posLabel-negLabel-1])'])
