-- What the drivers need from the language and VHDL-93 does not have: nothing in VHDL-2008.
package fxv_txt is
end package;
