package readline

import "testing"

func TestReplayC03(t *testing.T) { lineSearch(t, "C03") }
