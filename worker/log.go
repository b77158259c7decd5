package worker

import (
	"io"
	"log"
)

func logDiscard(w io.Writer) { log.SetOutput(w); log.SetFlags(0) }
