------------------------------ MODULE MCSplits ------------------------------
EXTENDS Splits
CONSTANTS MaxLen
VARIABLES gCfg, gState, gHist
Cfgs == {[kind |-> k, di |-> 2, dt |-> IF k \in {"ClassificationDataSet", "SequenceClassificationDataSet"} THEN 1 ELSE 2,
          ncl |-> n] : k \in {"SupervisedDataSet", "ImportanceDataSet", "SequentialDataSet", "ClassificationDataSet", "SequenceClassificationDataSet"},
          n \in {0, 3}}
INSTANCE GenBase
Bound == N(gState) <= MaxLen
Len1Inv == LenInv(gState)
OneOfManyInv == OneInv(gState)
HistogramInv == HistInv(gState)
=============================================================================
