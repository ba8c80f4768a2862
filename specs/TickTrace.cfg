SPECIFICATION TSpec
CONSTANT P <- PropEnv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
