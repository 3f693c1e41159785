package readline

import "testing"

func TestReplayC14(t *testing.T) { vHistSearch(t, "C14") }
