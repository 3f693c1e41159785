package readline

import "testing"

func TestReplayC15(t *testing.T) { vHistSearch(t, "C15") }
