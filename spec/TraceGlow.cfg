CONSTANTS Judgement <- GlowJudgement
          Fresh <- GlowFresh
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
