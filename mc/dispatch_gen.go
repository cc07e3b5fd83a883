// Code generated by tools/gen_dispatch.py; DO NOT EDIT.

package main

import (
	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
)

type d1 struct{ dispatcher }

func (p *d1) FRO() {
	p.call("f-r-o")
}

func (p *d1) FRE() error {
	o := p.call("f-r-e")
	return o.err
}

func (p *d1) FRC() booklit.Content {
	o := p.call("f-r-c")
	return o.c
}

func (p *d1) FRCe() (booklit.Content, error) {
	o := p.call("f-r-ce")
	return o.c, o.err
}

func (p *d1) FSRO(a0 string) {
	p.call("f-s-r-o", a0)
}

func (p *d1) FSRE(a0 string) error {
	o := p.call("f-s-r-e", a0)
	return o.err
}

func (p *d1) FSRC(a0 string) booklit.Content {
	o := p.call("f-s-r-c", a0)
	return o.c
}

func (p *d1) FSRCe(a0 string) (booklit.Content, error) {
	o := p.call("f-s-r-ce", a0)
	return o.c, o.err
}

func (p *d1) FCRO(a0 booklit.Content) {
	p.call("f-c-r-o", a0)
}

func (p *d1) FCRE(a0 booklit.Content) error {
	o := p.call("f-c-r-e", a0)
	return o.err
}

func (p *d1) FCRC(a0 booklit.Content) booklit.Content {
	o := p.call("f-c-r-c", a0)
	return o.c
}

func (p *d1) FCRCe(a0 booklit.Content) (booklit.Content, error) {
	o := p.call("f-c-r-ce", a0)
	return o.c, o.err
}

func (p *d1) FNRO(a0 ast.Node) {
	p.call("f-n-r-o", a0)
}

func (p *d1) FNRE(a0 ast.Node) error {
	o := p.call("f-n-r-e", a0)
	return o.err
}

func (p *d1) FNRC(a0 ast.Node) booklit.Content {
	o := p.call("f-n-r-c", a0)
	return o.c
}

func (p *d1) FNRCe(a0 ast.Node) (booklit.Content, error) {
	o := p.call("f-n-r-ce", a0)
	return o.c, o.err
}

func (p *d1) FSSRO(a0 string, a1 string) {
	p.call("f-s-s-r-o", a0, a1)
}

func (p *d1) FSSRE(a0 string, a1 string) error {
	o := p.call("f-s-s-r-e", a0, a1)
	return o.err
}

func (p *d1) FSSRC(a0 string, a1 string) booklit.Content {
	o := p.call("f-s-s-r-c", a0, a1)
	return o.c
}

func (p *d1) FSSRCe(a0 string, a1 string) (booklit.Content, error) {
	o := p.call("f-s-s-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FSCRO(a0 string, a1 booklit.Content) {
	p.call("f-s-c-r-o", a0, a1)
}

func (p *d1) FSCRE(a0 string, a1 booklit.Content) error {
	o := p.call("f-s-c-r-e", a0, a1)
	return o.err
}

func (p *d1) FSCRC(a0 string, a1 booklit.Content) booklit.Content {
	o := p.call("f-s-c-r-c", a0, a1)
	return o.c
}

func (p *d1) FSCRCe(a0 string, a1 booklit.Content) (booklit.Content, error) {
	o := p.call("f-s-c-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FSNRO(a0 string, a1 ast.Node) {
	p.call("f-s-n-r-o", a0, a1)
}

func (p *d1) FSNRE(a0 string, a1 ast.Node) error {
	o := p.call("f-s-n-r-e", a0, a1)
	return o.err
}

func (p *d1) FSNRC(a0 string, a1 ast.Node) booklit.Content {
	o := p.call("f-s-n-r-c", a0, a1)
	return o.c
}

func (p *d1) FSNRCe(a0 string, a1 ast.Node) (booklit.Content, error) {
	o := p.call("f-s-n-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FCSRO(a0 booklit.Content, a1 string) {
	p.call("f-c-s-r-o", a0, a1)
}

func (p *d1) FCSRE(a0 booklit.Content, a1 string) error {
	o := p.call("f-c-s-r-e", a0, a1)
	return o.err
}

func (p *d1) FCSRC(a0 booklit.Content, a1 string) booklit.Content {
	o := p.call("f-c-s-r-c", a0, a1)
	return o.c
}

func (p *d1) FCSRCe(a0 booklit.Content, a1 string) (booklit.Content, error) {
	o := p.call("f-c-s-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FCCRO(a0 booklit.Content, a1 booklit.Content) {
	p.call("f-c-c-r-o", a0, a1)
}

func (p *d1) FCCRE(a0 booklit.Content, a1 booklit.Content) error {
	o := p.call("f-c-c-r-e", a0, a1)
	return o.err
}

func (p *d1) FCCRC(a0 booklit.Content, a1 booklit.Content) booklit.Content {
	o := p.call("f-c-c-r-c", a0, a1)
	return o.c
}

func (p *d1) FCCRCe(a0 booklit.Content, a1 booklit.Content) (booklit.Content, error) {
	o := p.call("f-c-c-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FCNRO(a0 booklit.Content, a1 ast.Node) {
	p.call("f-c-n-r-o", a0, a1)
}

func (p *d1) FCNRE(a0 booklit.Content, a1 ast.Node) error {
	o := p.call("f-c-n-r-e", a0, a1)
	return o.err
}

func (p *d1) FCNRC(a0 booklit.Content, a1 ast.Node) booklit.Content {
	o := p.call("f-c-n-r-c", a0, a1)
	return o.c
}

func (p *d1) FCNRCe(a0 booklit.Content, a1 ast.Node) (booklit.Content, error) {
	o := p.call("f-c-n-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FNSRO(a0 ast.Node, a1 string) {
	p.call("f-n-s-r-o", a0, a1)
}

func (p *d1) FNSRE(a0 ast.Node, a1 string) error {
	o := p.call("f-n-s-r-e", a0, a1)
	return o.err
}

func (p *d1) FNSRC(a0 ast.Node, a1 string) booklit.Content {
	o := p.call("f-n-s-r-c", a0, a1)
	return o.c
}

func (p *d1) FNSRCe(a0 ast.Node, a1 string) (booklit.Content, error) {
	o := p.call("f-n-s-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FNCRO(a0 ast.Node, a1 booklit.Content) {
	p.call("f-n-c-r-o", a0, a1)
}

func (p *d1) FNCRE(a0 ast.Node, a1 booklit.Content) error {
	o := p.call("f-n-c-r-e", a0, a1)
	return o.err
}

func (p *d1) FNCRC(a0 ast.Node, a1 booklit.Content) booklit.Content {
	o := p.call("f-n-c-r-c", a0, a1)
	return o.c
}

func (p *d1) FNCRCe(a0 ast.Node, a1 booklit.Content) (booklit.Content, error) {
	o := p.call("f-n-c-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FNNRO(a0 ast.Node, a1 ast.Node) {
	p.call("f-n-n-r-o", a0, a1)
}

func (p *d1) FNNRE(a0 ast.Node, a1 ast.Node) error {
	o := p.call("f-n-n-r-e", a0, a1)
	return o.err
}

func (p *d1) FNNRC(a0 ast.Node, a1 ast.Node) booklit.Content {
	o := p.call("f-n-n-r-c", a0, a1)
	return o.c
}

func (p *d1) FNNRCe(a0 ast.Node, a1 ast.Node) (booklit.Content, error) {
	o := p.call("f-n-n-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FVsRO(a0 ...string) {
	p.call("f-vs-r-o", a0)
}

func (p *d1) FVsRE(a0 ...string) error {
	o := p.call("f-vs-r-e", a0)
	return o.err
}

func (p *d1) FVsRC(a0 ...string) booklit.Content {
	o := p.call("f-vs-r-c", a0)
	return o.c
}

func (p *d1) FVsRCe(a0 ...string) (booklit.Content, error) {
	o := p.call("f-vs-r-ce", a0)
	return o.c, o.err
}

func (p *d1) FVcRO(a0 ...booklit.Content) {
	p.call("f-vc-r-o", a0)
}

func (p *d1) FVcRE(a0 ...booklit.Content) error {
	o := p.call("f-vc-r-e", a0)
	return o.err
}

func (p *d1) FVcRC(a0 ...booklit.Content) booklit.Content {
	o := p.call("f-vc-r-c", a0)
	return o.c
}

func (p *d1) FVcRCe(a0 ...booklit.Content) (booklit.Content, error) {
	o := p.call("f-vc-r-ce", a0)
	return o.c, o.err
}

func (p *d1) FVnRO(a0 ...ast.Node) {
	p.call("f-vn-r-o", a0)
}

func (p *d1) FVnRE(a0 ...ast.Node) error {
	o := p.call("f-vn-r-e", a0)
	return o.err
}

func (p *d1) FVnRC(a0 ...ast.Node) booklit.Content {
	o := p.call("f-vn-r-c", a0)
	return o.c
}

func (p *d1) FVnRCe(a0 ...ast.Node) (booklit.Content, error) {
	o := p.call("f-vn-r-ce", a0)
	return o.c, o.err
}

func (p *d1) FSVsRO(a0 string, a1 ...string) {
	p.call("f-s-vs-r-o", a0, a1)
}

func (p *d1) FSVsRE(a0 string, a1 ...string) error {
	o := p.call("f-s-vs-r-e", a0, a1)
	return o.err
}

func (p *d1) FSVsRC(a0 string, a1 ...string) booklit.Content {
	o := p.call("f-s-vs-r-c", a0, a1)
	return o.c
}

func (p *d1) FSVsRCe(a0 string, a1 ...string) (booklit.Content, error) {
	o := p.call("f-s-vs-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FSVcRO(a0 string, a1 ...booklit.Content) {
	p.call("f-s-vc-r-o", a0, a1)
}

func (p *d1) FSVcRE(a0 string, a1 ...booklit.Content) error {
	o := p.call("f-s-vc-r-e", a0, a1)
	return o.err
}

func (p *d1) FSVcRC(a0 string, a1 ...booklit.Content) booklit.Content {
	o := p.call("f-s-vc-r-c", a0, a1)
	return o.c
}

func (p *d1) FSVcRCe(a0 string, a1 ...booklit.Content) (booklit.Content, error) {
	o := p.call("f-s-vc-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FSVnRO(a0 string, a1 ...ast.Node) {
	p.call("f-s-vn-r-o", a0, a1)
}

func (p *d1) FSVnRE(a0 string, a1 ...ast.Node) error {
	o := p.call("f-s-vn-r-e", a0, a1)
	return o.err
}

func (p *d1) FSVnRC(a0 string, a1 ...ast.Node) booklit.Content {
	o := p.call("f-s-vn-r-c", a0, a1)
	return o.c
}

func (p *d1) FSVnRCe(a0 string, a1 ...ast.Node) (booklit.Content, error) {
	o := p.call("f-s-vn-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FCVsRO(a0 booklit.Content, a1 ...string) {
	p.call("f-c-vs-r-o", a0, a1)
}

func (p *d1) FCVsRE(a0 booklit.Content, a1 ...string) error {
	o := p.call("f-c-vs-r-e", a0, a1)
	return o.err
}

func (p *d1) FCVsRC(a0 booklit.Content, a1 ...string) booklit.Content {
	o := p.call("f-c-vs-r-c", a0, a1)
	return o.c
}

func (p *d1) FCVsRCe(a0 booklit.Content, a1 ...string) (booklit.Content, error) {
	o := p.call("f-c-vs-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FCVcRO(a0 booklit.Content, a1 ...booklit.Content) {
	p.call("f-c-vc-r-o", a0, a1)
}

func (p *d1) FCVcRE(a0 booklit.Content, a1 ...booklit.Content) error {
	o := p.call("f-c-vc-r-e", a0, a1)
	return o.err
}

func (p *d1) FCVcRC(a0 booklit.Content, a1 ...booklit.Content) booklit.Content {
	o := p.call("f-c-vc-r-c", a0, a1)
	return o.c
}

func (p *d1) FCVcRCe(a0 booklit.Content, a1 ...booklit.Content) (booklit.Content, error) {
	o := p.call("f-c-vc-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FCVnRO(a0 booklit.Content, a1 ...ast.Node) {
	p.call("f-c-vn-r-o", a0, a1)
}

func (p *d1) FCVnRE(a0 booklit.Content, a1 ...ast.Node) error {
	o := p.call("f-c-vn-r-e", a0, a1)
	return o.err
}

func (p *d1) FCVnRC(a0 booklit.Content, a1 ...ast.Node) booklit.Content {
	o := p.call("f-c-vn-r-c", a0, a1)
	return o.c
}

func (p *d1) FCVnRCe(a0 booklit.Content, a1 ...ast.Node) (booklit.Content, error) {
	o := p.call("f-c-vn-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FNVsRO(a0 ast.Node, a1 ...string) {
	p.call("f-n-vs-r-o", a0, a1)
}

func (p *d1) FNVsRE(a0 ast.Node, a1 ...string) error {
	o := p.call("f-n-vs-r-e", a0, a1)
	return o.err
}

func (p *d1) FNVsRC(a0 ast.Node, a1 ...string) booklit.Content {
	o := p.call("f-n-vs-r-c", a0, a1)
	return o.c
}

func (p *d1) FNVsRCe(a0 ast.Node, a1 ...string) (booklit.Content, error) {
	o := p.call("f-n-vs-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FNVcRO(a0 ast.Node, a1 ...booklit.Content) {
	p.call("f-n-vc-r-o", a0, a1)
}

func (p *d1) FNVcRE(a0 ast.Node, a1 ...booklit.Content) error {
	o := p.call("f-n-vc-r-e", a0, a1)
	return o.err
}

func (p *d1) FNVcRC(a0 ast.Node, a1 ...booklit.Content) booklit.Content {
	o := p.call("f-n-vc-r-c", a0, a1)
	return o.c
}

func (p *d1) FNVcRCe(a0 ast.Node, a1 ...booklit.Content) (booklit.Content, error) {
	o := p.call("f-n-vc-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FNVnRO(a0 ast.Node, a1 ...ast.Node) {
	p.call("f-n-vn-r-o", a0, a1)
}

func (p *d1) FNVnRE(a0 ast.Node, a1 ...ast.Node) error {
	o := p.call("f-n-vn-r-e", a0, a1)
	return o.err
}

func (p *d1) FNVnRC(a0 ast.Node, a1 ...ast.Node) booklit.Content {
	o := p.call("f-n-vn-r-c", a0, a1)
	return o.c
}

func (p *d1) FNVnRCe(a0 ast.Node, a1 ...ast.Node) (booklit.Content, error) {
	o := p.call("f-n-vn-r-ce", a0, a1)
	return o.c, o.err
}

func (p *d1) FIRC(a0 int) booklit.Content {
	o := p.call("f-i-r-c", a0)
	return o.c
}

func (p *d1) FSIRC(a0 string, a1 int) booklit.Content {
	o := p.call("f-s-i-r-c", a0, a1)
	return o.c
}

func (p *d1) FISRC(a0 int, a1 string) booklit.Content {
	o := p.call("f-i-s-r-c", a0, a1)
	return o.c
}

func (p *d1) FCIRC(a0 booklit.Content, a1 int) booklit.Content {
	o := p.call("f-c-i-r-c", a0, a1)
	return o.c
}

func (p *d1) FNViRC(a0 ast.Node, a1 ...int) booklit.Content {
	o := p.call("f-n-vi-r-c", a0, a1)
	return o.c
}

func (p *d1) FViRC(a0 ...int) booklit.Content {
	o := p.call("f-vi-r-c", a0)
	return o.c
}

func (p *d1) FTRC(a0 []string) booklit.Content {
	o := p.call("f-t-r-c", a0)
	return o.c
}

func (p *d1) FQRC(a0 booklit.String) booklit.Content {
	o := p.call("f-q-r-c", a0)
	return o.c
}

func (p *d1) FPRC(a0 *booklit.Section) booklit.Content {
	o := p.call("f-p-r-c", a0)
	return o.c
}

func (p *d1) FERC(a0 error) booklit.Content {
	o := p.call("f-e-r-c", a0)
	return o.c
}

func (p *d1) FXRC(a0 ast.Sequence) booklit.Content {
	o := p.call("f-x-r-c", a0)
	return o.c
}

func (p *d1) FBRC(a0 bool) booklit.Content {
	o := p.call("f-b-r-c", a0)
	return o.c
}

func (p *d1) FWRC(a0 interface{}) booklit.Content {
	o := p.call("f-w-r-c", a0)
	return o.c
}

func (p *d1) FRSt() string {
	p.call("f-r-st")
	return "st"
}

func (p *d1) FCRSt(a0 booklit.Content) string {
	p.call("f-c-r-st", a0)
	return "st"
}

func (p *d1) FRIn() int {
	p.call("f-r-in")
	return 1
}

func (p *d1) FCRIn(a0 booklit.Content) int {
	p.call("f-c-r-in", a0)
	return 1
}

func (p *d1) FRSe() (string, error) {
	o := p.call("f-r-se")
	return "se", o.err
}

func (p *d1) FCRSe(a0 booklit.Content) (string, error) {
	o := p.call("f-c-r-se", a0)
	return "se", o.err
}

func (p *d1) FRCs() (booklit.Content, string) {
	o := p.call("f-r-cs")
	return o.c, "cs"
}

func (p *d1) FCRCs(a0 booklit.Content) (booklit.Content, string) {
	o := p.call("f-c-r-cs", a0)
	return o.c, "cs"
}

func (p *d1) FRSb() booklit.String {
	p.call("f-r-sb")
	return booklit.String("sb")
}

func (p *d1) FCRSb(a0 booklit.Content) booklit.String {
	p.call("f-c-r-sb", a0)
	return booklit.String("sb")
}

func (p *d1) FREc() (error, booklit.Content) {
	o := p.call("f-r-ec")
	return o.err, o.c
}

func (p *d1) FCREc(a0 booklit.Content) (error, booklit.Content) {
	o := p.call("f-c-r-ec", a0)
	return o.err, o.c
}

func (p *d1) FRCce() (booklit.Content, booklit.Content, error) {
	o := p.call("f-r-cce")
	return o.c, o.c, o.err
}

func (p *d1) FCRCce(a0 booklit.Content) (booklit.Content, booklit.Content, error) {
	o := p.call("f-c-r-cce", a0)
	return o.c, o.c, o.err
}

func (p *d1) FRSq() (booklit.Sequence, error) {
	o := p.call("f-r-sq")
	return booklit.Sequence{}, o.err
}

func (p *d1) FCRSq(a0 booklit.Content) (booklit.Sequence, error) {
	o := p.call("f-c-r-sq", a0)
	return booklit.Sequence{}, o.err
}

func (p *d1) FRBo() (booklit.Content, bool) {
	o := p.call("f-r-bo")
	return o.c, true
}

func (p *d1) FCRBo(a0 booklit.Content) (booklit.Content, bool) {
	o := p.call("f-c-r-bo", a0)
	return o.c, true
}

var d1sigs = map[string]dsig{
	"f-r-o":       {"", "o"},
	"f-r-e":       {"", "e"},
	"f-r-c":       {"", "c"},
	"f-r-ce":      {"", "ce"},
	"f-s-r-o":     {"s", "o"},
	"f-s-r-e":     {"s", "e"},
	"f-s-r-c":     {"s", "c"},
	"f-s-r-ce":    {"s", "ce"},
	"f-c-r-o":     {"c", "o"},
	"f-c-r-e":     {"c", "e"},
	"f-c-r-c":     {"c", "c"},
	"f-c-r-ce":    {"c", "ce"},
	"f-n-r-o":     {"n", "o"},
	"f-n-r-e":     {"n", "e"},
	"f-n-r-c":     {"n", "c"},
	"f-n-r-ce":    {"n", "ce"},
	"f-s-s-r-o":   {"ss", "o"},
	"f-s-s-r-e":   {"ss", "e"},
	"f-s-s-r-c":   {"ss", "c"},
	"f-s-s-r-ce":  {"ss", "ce"},
	"f-s-c-r-o":   {"sc", "o"},
	"f-s-c-r-e":   {"sc", "e"},
	"f-s-c-r-c":   {"sc", "c"},
	"f-s-c-r-ce":  {"sc", "ce"},
	"f-s-n-r-o":   {"sn", "o"},
	"f-s-n-r-e":   {"sn", "e"},
	"f-s-n-r-c":   {"sn", "c"},
	"f-s-n-r-ce":  {"sn", "ce"},
	"f-c-s-r-o":   {"cs", "o"},
	"f-c-s-r-e":   {"cs", "e"},
	"f-c-s-r-c":   {"cs", "c"},
	"f-c-s-r-ce":  {"cs", "ce"},
	"f-c-c-r-o":   {"cc", "o"},
	"f-c-c-r-e":   {"cc", "e"},
	"f-c-c-r-c":   {"cc", "c"},
	"f-c-c-r-ce":  {"cc", "ce"},
	"f-c-n-r-o":   {"cn", "o"},
	"f-c-n-r-e":   {"cn", "e"},
	"f-c-n-r-c":   {"cn", "c"},
	"f-c-n-r-ce":  {"cn", "ce"},
	"f-n-s-r-o":   {"ns", "o"},
	"f-n-s-r-e":   {"ns", "e"},
	"f-n-s-r-c":   {"ns", "c"},
	"f-n-s-r-ce":  {"ns", "ce"},
	"f-n-c-r-o":   {"nc", "o"},
	"f-n-c-r-e":   {"nc", "e"},
	"f-n-c-r-c":   {"nc", "c"},
	"f-n-c-r-ce":  {"nc", "ce"},
	"f-n-n-r-o":   {"nn", "o"},
	"f-n-n-r-e":   {"nn", "e"},
	"f-n-n-r-c":   {"nn", "c"},
	"f-n-n-r-ce":  {"nn", "ce"},
	"f-vs-r-o":    {"S", "o"},
	"f-vs-r-e":    {"S", "e"},
	"f-vs-r-c":    {"S", "c"},
	"f-vs-r-ce":   {"S", "ce"},
	"f-vc-r-o":    {"C", "o"},
	"f-vc-r-e":    {"C", "e"},
	"f-vc-r-c":    {"C", "c"},
	"f-vc-r-ce":   {"C", "ce"},
	"f-vn-r-o":    {"N", "o"},
	"f-vn-r-e":    {"N", "e"},
	"f-vn-r-c":    {"N", "c"},
	"f-vn-r-ce":   {"N", "ce"},
	"f-s-vs-r-o":  {"sS", "o"},
	"f-s-vs-r-e":  {"sS", "e"},
	"f-s-vs-r-c":  {"sS", "c"},
	"f-s-vs-r-ce": {"sS", "ce"},
	"f-s-vc-r-o":  {"sC", "o"},
	"f-s-vc-r-e":  {"sC", "e"},
	"f-s-vc-r-c":  {"sC", "c"},
	"f-s-vc-r-ce": {"sC", "ce"},
	"f-s-vn-r-o":  {"sN", "o"},
	"f-s-vn-r-e":  {"sN", "e"},
	"f-s-vn-r-c":  {"sN", "c"},
	"f-s-vn-r-ce": {"sN", "ce"},
	"f-c-vs-r-o":  {"cS", "o"},
	"f-c-vs-r-e":  {"cS", "e"},
	"f-c-vs-r-c":  {"cS", "c"},
	"f-c-vs-r-ce": {"cS", "ce"},
	"f-c-vc-r-o":  {"cC", "o"},
	"f-c-vc-r-e":  {"cC", "e"},
	"f-c-vc-r-c":  {"cC", "c"},
	"f-c-vc-r-ce": {"cC", "ce"},
	"f-c-vn-r-o":  {"cN", "o"},
	"f-c-vn-r-e":  {"cN", "e"},
	"f-c-vn-r-c":  {"cN", "c"},
	"f-c-vn-r-ce": {"cN", "ce"},
	"f-n-vs-r-o":  {"nS", "o"},
	"f-n-vs-r-e":  {"nS", "e"},
	"f-n-vs-r-c":  {"nS", "c"},
	"f-n-vs-r-ce": {"nS", "ce"},
	"f-n-vc-r-o":  {"nC", "o"},
	"f-n-vc-r-e":  {"nC", "e"},
	"f-n-vc-r-c":  {"nC", "c"},
	"f-n-vc-r-ce": {"nC", "ce"},
	"f-n-vn-r-o":  {"nN", "o"},
	"f-n-vn-r-e":  {"nN", "e"},
	"f-n-vn-r-c":  {"nN", "c"},
	"f-n-vn-r-ce": {"nN", "ce"},
	"f-i-r-c":     {"i", "c"},
	"f-s-i-r-c":   {"si", "c"},
	"f-i-s-r-c":   {"is", "c"},
	"f-c-i-r-c":   {"ci", "c"},
	"f-n-vi-r-c":  {"nI", "c"},
	"f-vi-r-c":    {"I", "c"},
	"f-t-r-c":     {"t", "c"},
	"f-q-r-c":     {"q", "c"},
	"f-p-r-c":     {"p", "c"},
	"f-e-r-c":     {"e", "c"},
	"f-x-r-c":     {"x", "c"},
	"f-b-r-c":     {"b", "c"},
	"f-w-r-c":     {"w", "c"},
	"f-r-st":      {"", "st"},
	"f-c-r-st":    {"c", "st"},
	"f-r-in":      {"", "in"},
	"f-c-r-in":    {"c", "in"},
	"f-r-se":      {"", "se"},
	"f-c-r-se":    {"c", "se"},
	"f-r-cs":      {"", "cs"},
	"f-c-r-cs":    {"c", "cs"},
	"f-r-sb":      {"", "sb"},
	"f-c-r-sb":    {"c", "sb"},
	"f-r-ec":      {"", "ec"},
	"f-c-r-ec":    {"c", "ec"},
	"f-r-cce":     {"", "cce"},
	"f-c-r-cce":   {"c", "cce"},
	"f-r-sq":      {"", "sq"},
	"f-c-r-sq":    {"c", "sq"},
	"f-r-bo":      {"", "bo"},
	"f-c-r-bo":    {"c", "bo"},
}
