CONSTANTS Judgement <- WJudgement
          Fresh <- WFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
