SPECIFICATION MCSpec
CONSTANTS
  Lang <- MCLang
  Text <- MCText
  Spi <- MCSpi
INVARIANTS InvTruncate
