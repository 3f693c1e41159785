package readline

import "testing"

func TestReplayC05(t *testing.T) { lineSearch(t, "C05") }
