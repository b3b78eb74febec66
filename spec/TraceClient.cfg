CONSTANTS Judgement <- ClientJudgement
          Fresh <- CFresh
          MaxWaiting = 256
          LostWithIt = 3
          Grace = 9000
SPECIFICATION JSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
