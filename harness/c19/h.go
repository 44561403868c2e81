// Package c19: errors keep their identity through wrapping.
package c19

import (
	"errors"
	"fmt"
	"io/fs"
	"strings"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/zz_verif/sym"
	"github.com/hashicorp/go-multierror"
)

var predefined = []disko.DriverError{
	disko.ErrAlreadyInProgress, disko.ErrArgumentOutOfRange, disko.ErrBlockDeviceRequired, disko.ErrBusy,
	disko.ErrCrossDeviceLink, disko.ErrDirectoryNotEmpty, disko.ErrDiskQuotaExceeded, disko.ErrExists,
	disko.ErrFileDescriptorBadState, disko.ErrFileSystemCorrupted, disko.ErrFileTooLarge, disko.ErrInvalidArgument,
	disko.ErrInvalidFileDescriptor, disko.ErrInvalidFileSystem, disko.ErrIOFailed, disko.ErrIsADirectory,
	disko.ErrLinkCycleDetected, disko.ErrNameTooLong, disko.ErrNoDevice, disko.ErrNoSpaceOnDevice,
	disko.ErrNotADirectory, disko.ErrNotFound, disko.ErrNotImplemented, disko.ErrNotPermitted,
	disko.ErrNotSupported, disko.ErrPermissionDenied, disko.ErrReadOnlyFileSystem, disko.ErrResultOutOfRange,
	disko.ErrTooManyLinks, disko.ErrTooManyOpenFiles, disko.ErrTooManyUsers,
}

type foreignStruct struct{ code int }

func (e foreignStruct) Error() string { return "code" }

type foreignSlice []string

func (e foreignSlice) Error() string { return "slice" }

var errForeign = errors.New("foreign")

// part is an error with what it must match and the texts it is made of.
type part struct {
	err   error
	must  []error
	is    [40]bool // matches predefined[i]
	texts []string
}

func fromPredefined(i int) part {
	p := part{err: predefined[i], must: []error{predefined[i]}, texts: []string{predefined[i].Error()}}
	p.is[i] = true
	return p
}

// other picks a predefined error to wrap; the quick tier takes a few.
func other() int {
	n := sym.Bound("wrapped predefined errors", 4, len(predefined))
	return sym.Choice(n) * len(predefined) / n
}

// foreign picks an error that is not made by this package.
func foreign(k int) part {
	switch k {
	case 0:
		return part{err: errForeign, must: []error{errForeign}, texts: []string{"foreign"}}
	case 1:
		e := foreignStruct{int(sym.Uint8())}
		return part{err: e, must: []error{e}, texts: []string{"code"}}
	case 2:
		e := &fs.PathError{Op: "open", Path: "/x", Err: errForeign}
		return part{err: e, must: []error{e, errForeign}, texts: []string{e.Error()}}
	case 3:
		i := other()
		e := fmt.Errorf("outer %w", predefined[i])
		p := part{err: e, must: []error{e, predefined[i]}, texts: []string{e.Error()}}
		p.is[i] = true
		return p
	case 4:
		in := errors.New("inner")
		e := &multierror.Error{Errors: []error{errForeign, in}}
		return part{err: e, must: []error{e, errForeign, in}, texts: []string{e.Error()}}
	case 5:
		return part{err: foreignSlice{"a"}, texts: []string{"slice"}}
	default:
		in := errors.New("joined")
		e := errors.Join(errForeign, in)
		return part{err: e, must: []error{e, errForeign, in}, texts: []string{e.Error()}}
	}
}

func message() string {
	switch sym.Choice(3) {
	case 0:
		return sym.String(1 + sym.Choice(2))
	case 1:
		return "100%d of it"
	default:
		return "File exists"
	}
}

func start() part {
	switch sym.Choice(3) {
	case 0:
		return fromPredefined(sym.Choice(len(predefined)))
	case 1:
		e := disko.NewError("own kind")
		return part{err: e, must: []error{e}, texts: []string{"own kind"}}
	default:
		f := foreign(sym.Choice(7))
		d := disko.CastToDriverError(f.err)
		sym.Assert(d != nil, "converting an error does not lose it")
		f.err = d
		return f
	}
}

func (p *part) step() {
	d := p.err.(disko.DriverError)
	before := p.err.Error()
	if sym.Choice(2) == 0 {
		m := message()
		p.err = d.WithMessage(m)
		p.texts = append(p.texts, m)
	} else {
		var q part
		switch sym.Choice(3) {
		case 0:
			q = fromPredefined(other())
		case 1:
			q = foreign(sym.Choice(7))
		default:
			q = fromPredefined(other())
			m := message()
			q.err = q.err.(disko.DriverError).WithMessage(m)
			q.texts = append(q.texts, m)
			q.must = append(q.must, q.err)
		}
		p.err = d.Wrap(q.err)
		p.texts = append(p.texts, q.texts...)
		p.must = append(p.must, q.must...)
		for i := range p.is {
			p.is[i] = p.is[i] || q.is[i]
		}
	}
	p.must = append(p.must, p.err)
	sym.Assert(d.Error() == before, "deriving an error does not change the original")
}

func (p *part) check() {
	for _, m := range p.must {
		sym.Assert(errors.Is(p.err, m), "a derived error matches what it is derived from and what was wrapped into it")
	}
	for i, e := range predefined {
		if !p.is[i] {
			sym.Assert(!errors.Is(p.err, e), "a derived error matches no unrelated predefined error")
		}
	}
	var nonEmpty []string
	for _, t := range p.texts {
		if t != "" {
			nonEmpty = append(nonEmpty, t)
		}
	}
	sym.Assert(strings.Contains(p.err.Error(), strings.Join(nonEmpty, ": ")), "the text is the parts in order joined by colons")
	sym.Observe("text", p.err.Error())
}

// H_Chain: every chain of a few steps from every starting error.
func H_Chain() {
	p := start()
	n := 2
	for i := 0; i < n; i++ {
		p.step()
	}
	p.check()
}

// H_Long: longer chains of fewer kinds of steps.
func H_Long() {
	p := fromPredefined(sym.Choice(3) * 7)
	n := sym.Bound("steps", 4, 6)
	for i := 0; i < n; i++ {
		d := p.err.(disko.DriverError)
		switch sym.Choice(4) {
		case 0:
			p.err = d.WithMessage("more")
			p.texts = append(p.texts, "more")
		case 1:
			q := fromPredefined(5)
			p.err = d.Wrap(q.err)
			p.is[5] = true
			p.must = append(p.must, q.err)
			p.texts = append(p.texts, q.texts...)
		case 2:
			q := foreign(4)
			p.err = d.Wrap(q.err)
			p.must = append(p.must, q.must...)
			p.texts = append(p.texts, q.texts...)
		default:
			q := foreignStruct{i}
			p.err = d.Wrap(q)
			p.must = append(p.must, q)
			p.texts = append(p.texts, "code")
		}
		p.must = append(p.must, p.err)
	}
	p.check()
}

// H_Deep: dozens of steps, long messages.
func H_Deep() {
	p := fromPredefined(sym.Choice(2) * 9)
	how := sym.Choice(3)
	n := sym.Bound("steps of a deep chain", 40, 100)
	long := strings.Repeat("long message ", 100)
	for i := 0; i < n; i++ {
		d := p.err.(disko.DriverError)
		if how == 0 || (how == 2 && i%2 == 0) {
			m := "more"
			if i%16 == 3 {
				m = long
			}
			p.err = d.WithMessage(m)
			p.texts = append(p.texts, m)
		} else {
			q := fmt.Errorf("cause %d", i)
			p.err = d.Wrap(q)
			p.must = append(p.must, q)
			p.texts = append(p.texts, q.Error())
		}
		p.must = append(p.must, p.err)
	}
	p.check()
	sym.Cover("deep")
}

// H_Siblings: errors derived from the same one have nothing to do with each other.
func H_Siblings() {
	p := fromPredefined(9)
	for i, n := 0, sym.Choice(4); i < n; i++ {
		// three wrapped errors leave room behind them in a list that was grown by doubling
		e := errors.New(fmt.Sprint("earlier ", i))
		p.err = p.err.(disko.DriverError).Wrap(e)
		p.must = append(p.must, e, p.err)
		p.texts = append(p.texts, e.Error())
	}
	if sym.Choice(2) == 1 {
		p.err = p.err.(disko.DriverError).WithMessage("more")
		p.texts = append(p.texts, "more")
		p.must = append(p.must, p.err)
	}
	a, b := p, p
	a.must, b.must = append([]error{}, p.must...), append([]error{}, p.must...)
	a.texts, b.texts = append([]string{}, p.texts...), append([]string{}, p.texts...)
	x, y := errors.New("x"), errors.New("y")
	derive := func(p *part, e error, i int) {
		d := p.err.(disko.DriverError)
		if sym.Choice(2) == 0 {
			p.err = d.Wrap(e)
			p.must = append(p.must, e)
			p.texts = append(p.texts, e.Error())
		} else {
			p.err = d.Wrap(predefined[i])
			p.is[i] = true
			p.texts = append(p.texts, predefined[i].Error())
		}
		p.must = append(p.must, p.err)
	}
	derive(&a, x, 3)
	derive(&b, y, 11)
	a.check()
	b.check()
	p.check()
	sym.Assert(!errors.Is(a.err, y) && !errors.Is(b.err, x), "an error does not match what was wrapped into another")
	sym.Cover("siblings")
}

// H_Cast: conversion.
func H_Cast() {
	sym.Assert(disko.CastToDriverError(nil) == nil, "converting nil gives nil")
	p := fromPredefined(sym.Choice(len(predefined)))
	if sym.Bool() {
		p.step()
	}
	d := disko.CastToDriverError(p.err)
	sym.Assert(error(d) == p.err, "a driver error is kept as it is")
}

// H_CastForeign: conversion of errors made elsewhere.
func H_CastForeign() {
	f := foreign(sym.Choice(7))
	c := disko.CastToDriverError(f.err)
	sym.Assert(c != nil, "a foreign error converts to an error")
	f.err = c
	f.check()
	c2 := disko.CastToDriverError(c)
	sym.Assert(errors.Is(c2, c) && c2.Error() == c.Error(), "converting twice is converting once")
}

// H_Predefined: the predefined errors are distinct.
func H_Predefined() {
	i, j := sym.Choice(len(predefined)), sym.Choice(len(predefined))
	sym.Assert(errors.Is(predefined[i], predefined[j]) == (i == j), "predefined errors are distinct")
	sym.Assert(predefined[i].Error() != "", "predefined errors have a text")
}
