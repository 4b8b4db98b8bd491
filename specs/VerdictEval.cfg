SPECIFICATION Spec
POSTCONDITION AllJudged
