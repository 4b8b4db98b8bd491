SPECIFICATION RSpec
POSTCONDITION AllJudged
