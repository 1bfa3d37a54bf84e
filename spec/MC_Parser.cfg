SPECIFICATION MCSpec
CONSTANTS
  Lang <- MCLang
  Text <- MCText
  Spi <- MCSpi
INVARIANTS InvLex InvText InvBalanced InvTree InvBlocks InvProgress
