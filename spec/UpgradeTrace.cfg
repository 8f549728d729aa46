SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANT Family <- FamilyFromFile
