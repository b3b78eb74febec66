CONSTANTS Judgement <- ShowJudgement
          Fresh <- TFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
