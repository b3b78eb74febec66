CONSTANTS Judgement <- CJudgement
          Fresh <- CFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
