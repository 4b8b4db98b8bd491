SPECIFICATION PSpec
POSTCONDITION AllJudged
