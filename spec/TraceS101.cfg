CONSTANTS Judgement <- SJudgement
          Fresh <- SFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
