CONSTANTS Judgement <- BERJudgement
          Fresh <- BERFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
