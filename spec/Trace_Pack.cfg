SPECIFICATION JSpec
CONSTANT Clause <- TClause
