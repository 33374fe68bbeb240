SPECIFICATION JSpec
CONSTANTS
  SInit <- TInit
  SStep <- TStep
