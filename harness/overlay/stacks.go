package helium

// Constructors for the check of the parser's own stacks. This file is not a
// part of the repository: run.sh adds it with -overlay.

type VerifNSStack = nsStack
type VerifNodeStack = nodeStack
type VerifInputStack = inputStack

func VerifNewNSStack() nsStack       { return newNsStack() }
func VerifNewNodeStack() nodeStack   { return newNodeStack() }
func VerifNewInputStack() inputStack { return newInputStack() }
