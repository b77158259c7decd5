package worker

import "testing"

func TestWorker(t *testing.T) { Main(t) }
