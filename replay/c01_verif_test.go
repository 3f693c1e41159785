package readline

import "testing"

func TestReplayC01(t *testing.T) { lineSearch(t, "C01") }
