//go:build !extended

package wsim

const Extended = false

func execAdvanced(rec *Rec, c Ctx, op *Op) { panic("harness: not an extended build") }
