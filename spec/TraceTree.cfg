CONSTANTS Judgement <- TreeJudgement
          Fresh <- TFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
