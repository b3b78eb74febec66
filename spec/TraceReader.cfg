CONSTANTS Judgement <- RJudgement
          Fresh <- RFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
