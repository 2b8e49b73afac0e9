-- PSL directives over traces of three signals
package psl_orc is
    procedure orc_start(prop : string);
    procedure orc_cycle(a, b, c : boolean);
    procedure orc_check;
    attribute foreign of orc_start : procedure is "INTERNAL _orc_start";
    attribute foreign of orc_cycle : procedure is "INTERNAL _orc_cycle";
    attribute foreign of orc_check : procedure is "INTERNAL _orc_check";
end package;
package body psl_orc is
    procedure orc_start(prop : string) is begin end procedure;
    procedure orc_cycle(a, b, c : boolean) is begin end procedure;
    procedure orc_check is begin end procedure;
end package body;

entity psl1 is generic (SECT : integer); end entity;
use work.sx.all;
use work.psl_orc.all;
architecture t of psl1 is
    signal clk : bit;
    type bools is array (natural range <>) of boolean;
    signal s : bools(0 to 3);    -- the last element always changes
    signal sb : bit_vector(0 to 3);
    alias ba is sb(0);
    alias bb is sb(1);
    alias bc is sb(2);
    alias a is s(0);
    alias b is s(1);
    alias c is s(2);
    default clock is clk'event and clk = '1';

    type rec is record
        prop   : string(1 to 60);   -- see psl_orc.c
        cycles : natural;
    end record;
    function get return rec is
    begin
        case SECT is
            when 1 => return ("AIab                                                        ", 4);
            when 2 => return ("AIaX1b                                                      ", 5);
            when 3 => return ("AIaX3b                                                      ", 5);
            when 4 => return ("AIaX1Ubc                                                    ", 5);
            when 5 => return ("AIaX1Vbc                                                    ", 5);
            when 6 => return ("AIaX1Bbc                                                    ", 5);
            when 7 => return ("AIaX1Cbc                                                    ", 5);
            when 8 => return ("AIaX1Gbc                                                    ", 4);
            when 9 => return ("AIaX1Hbc                                                    ", 4);
            when 10 => return ("AIaX1Wbc                                                    ", 4);
            when 11 => return ("AIaX1Zbc                                                    ", 4);
            when 12 => return ("AIaYb                                                       ", 5);
            when 13 => return ("AIaX1OaX1b                                                  ", 4);
            when 14 => return ("AEab                                                        ", 4);
            when 15 => return ("PR;a;bc                                                     ", 4);
            when 16 => return ("AS;abc                                                      ", 5);
            when 17 => return ("AQ;abR;ca                                                   ", 5);
            when 18 => return ("N;a;bc                                                      ", 5);
            when 19 => return ("N;a;*12bc                                                   ", 5);
            when 20 => return ("D;a;*02bc                                                   ", 5);
            when 21 => return ("D;a;*1-bc                                                   ", 5);
            when 22 => return ("D;a;*0-bc                                                   ", 5);
            when 23 => return ("D;a;>22bc                                                   ", 5);
            when 24 => return ("D;a;=22bc                                                   ", 5);
            when 25 => return ("D;a;=12bc                                                   ", 5);
            when 26 => return ("D:;ab;ca                                                    ", 5);
            when 27 => return ("D&;a;bc;b;bc                                                ", 5);
            when 29 => return ("D*22;ab                                                     ", 5);
            when 30 => return ("D;*1-;abc                                                   ", 5);
            when 31 => return ("AKIaX2bc                                                    ", 5);
            when 32 => return ("PR;*22ab                                                    ", 4);
            when 34 => return ("AQ;a*12bc                                                   ", 5);
            when 35 => return ("ZR;*12ab                                                    ", 4);
            when 37 => return ("AIaX1Ub.!bc                                                 ", 4);
            when 38 => return ("D;a>12b                                                     ", 5);
            when 39 => return ("AIaX1R;bc                                                   ", 5);
            when 41 => return ("AS;a>11bc                                                   ", 5);
            when 42 => return ("AQ;a>22bR;ca                                                ", 5);
            when 43 => return ("AQ;a=11bc                                                   ", 5);
            when 44 => return ("AS;a:bcX1b                                                  ", 5);
            when 45 => return ("N;:*23abc                                                   ", 5);
            when 46 => return ("D;:*12abc                                                   ", 5);
            when 47 => return ("D;a;*23bc                                                   ", 5);
            when 48 => return ("D;*1-a;*1-bc                                                ", 5);
            when 49 => return ("D;>11a;=11bc                                                ", 5);
            when 50 => return ("D&;*1-ab;=11cb                                              ", 4);
            when 51 => return ("AIaX1IbX1c                                                  ", 5);
            when 52 => return ("AS;abX1Bbc                                                  ", 5);
            when 53 => return ("AKIaX1Ubc.ac                                                ", 5);
            when 54 => return ("PIaX1b                                                      ", 4);
            when 56 => return ("AI.a!bYb                                                    ", 5);
            when 57 => return ("AI^ap1b                                                     ", 5);
            when 58 => return ("AI_bX1sc                                                    ", 5);
            when 59 => return ("N;ap2b                                                      ", 5);
            when 60 => return ("D;^a|_asb                                                   ", 5);
            when 61 => return ("D&;ab;ca                                                    ", 4);
            when 62 => return ("AS;b*1-ac                                                   ", 4);
            when 63 => return ("AS;b*12aX1c                                                 ", 4);
            when 64 => return ("AS;b;*12abUac                                               ", 4);
            when 65 => return ("AS;b=11ac                                                   ", 4);
            when 66 => return ("AS;b*12aOcX1b                                               ", 4);
            when 67 => return ("AS;b*12aIcX1a                                               ", 4);
            when 68 => return ("AS;a*1-bR;cc                                                ", 4);
            when 40 => return ("D;a*12:bc                                                   ", 5);
            when others => return ((others => ' '), 0);
        end case;
    end function;
    constant r : rec := get;
begin
    process is
        variable va, vb, vc : boolean;
    begin
        orc_start(r.prop);
        for i in 1 to r.cycles loop
            va := nd_bool;
            vb := nd_bool;
            vc := nd_bool;
            s <= (va, vb, vc, not s(3));
            if SECT >= 57 then
                sb <= (bit'val(boolean'pos(va)), bit'val(boolean'pos(vb)),
                       bit'val(boolean'pos(vc)), not sb(3));
            end if;
            wait for 1 ns;
            orc_cycle(va, vb, vc);
            clk <= '1';
            wait for 1 ns;
            orc_check;
            clk <= '0';
        end loop;
        wait;
    end process;

    g1: if SECT = 1 generate d: assert always (a -> b); end generate;
    g2: if SECT = 2 generate d: assert always (a -> next b); end generate;
    g3: if SECT = 3 generate d: assert always (a -> next[3] (b)); end generate;
    g4: if SECT = 4 generate d: assert always (a -> next (b until c)); end generate;
    g5: if SECT = 5 generate d: assert always (a -> next (b until_ c)); end generate;
    g6: if SECT = 6 generate d: assert always (a -> next (b before c)); end generate;
    g7: if SECT = 7 generate d: assert always (a -> next (b before_ c)); end generate;
    g8: if SECT = 8 generate d: assert always (a -> next (b before! c)); end generate;
    g9: if SECT = 9 generate d: assert always (a -> next (b before!_ c)); end generate;
    g10: if SECT = 10 generate d: assert always (a -> next (b until! c)); end generate;
    g11: if SECT = 11 generate d: assert always (a -> next (b until!_ c)); end generate;
    g12: if SECT = 12 generate d: assert always (a -> eventually! b); end generate;
    g13: if SECT = 13 generate d: assert always (a -> next (a or next b)); end generate;
    g14: if SECT = 14 generate d: assert always (a <-> b); end generate;
    g15: if SECT = 15 generate d: assert {a; b; c}; end generate;
    g16: if SECT = 16 generate d: assert always {a; b} |-> c; end generate;
    g17: if SECT = 17 generate d: assert always {a; b} |=> {c; a}; end generate;
    g18: if SECT = 18 generate d: assert never {a; b; c}; end generate;
    g19: if SECT = 19 generate d: assert never {a; b[*1 to 2]; c}; end generate;
    g20: if SECT = 20 generate d: cover {a; b[*0 to 2]; c} report "hit"; end generate;
    g21: if SECT = 21 generate d: cover {a; b[+]; c} report "hit"; end generate;
    g22: if SECT = 22 generate d: cover {a; b[*]; c} report "hit"; end generate;
    g23: if SECT = 23 generate d: cover {a; b[->2]; c} report "hit"; end generate;
    g24: if SECT = 24 generate d: cover {a; b[=2]; c} report "hit"; end generate;
    g25: if SECT = 25 generate d: cover {a; b[=1 to 2]; c} report "hit"; end generate;
    g26: if SECT = 26 generate d: cover {{a; b} : {c; a}} report "hit"; end generate;
    g27: if SECT = 27 generate d: cover {{a; b; c} && {b; b; c}} report "hit"; end generate;
    g29: if SECT = 29 generate d: cover {{a; b}[*2]} report "hit"; end generate;
    g30: if SECT = 30 generate d: cover {{a; b}[+]; c} report "hit"; end generate;
    g31: if SECT = 31 generate d: assert always ((a -> next[2] b) sync_abort c); end generate;
    g32: if SECT = 32 generate d: assert {a[*2]; b}; end generate;
    g34: if SECT = 34 generate d: assert always {a; b[*1 to 2]} |=> c; end generate;
    g35: if SECT = 35 generate d: assert {a[*1 to 2]; b}; end generate;
    g37: if SECT = 37 generate d: assert always (a -> next (b until (not b and c))); end generate;
    g38: if SECT = 38 generate d: cover {a; b[->1 to 2]} report "hit"; end generate;
    g39: if SECT = 39 generate d: assert always (a -> next {b; c}); end generate;
    g41: if SECT = 41 generate d: assert always {a; b[->1]} |-> c; end generate;
    g42: if SECT = 42 generate d: assert always {a; b[->2]} |=> {c; a}; end generate;
    g43: if SECT = 43 generate d: assert always {a; b[=1]} |=> c; end generate;
    g44: if SECT = 44 generate d: assert always {a; {b : c}} |-> next b; end generate;
    g45: if SECT = 45 generate d: assert never {a[*2 to 3] : b; c}; end generate;
    g46: if SECT = 46 generate d: cover {a[*1 to 2] : b; c} report "hit"; end generate;
    g47: if SECT = 47 generate d: cover {a; b[*2 to 3]; c} report "hit"; end generate;
    g48: if SECT = 48 generate d: cover {a[+]; b[+]; c} report "hit"; end generate;
    g49: if SECT = 49 generate d: cover {a[->1]; b[=1]; c} report "hit"; end generate;
    g50: if SECT = 50 generate d: cover {{a[+]; b} && {c[=1]; b}} report "hit"; end generate;
    g51: if SECT = 51 generate d: assert always (a -> (next (b -> next c))); end generate;
    g52: if SECT = 52 generate d: assert always {a; b} |-> (next (b before c)); end generate;
    g53: if SECT = 53 generate d: assert always ((a -> next (b until c)) sync_abort (a and c)); end generate;
    g54: if SECT = 54 generate d: assert (a -> next b); end generate;
    g56: if SECT = 56 generate d: assert always (a and not b) -> (eventually! b); end generate;
    g57: if SECT = 57 generate d: assert always (rose(ba) -> prev(b)); end generate;
    g58: if SECT = 58 generate d: assert always (fell(bb) -> next (stable(bc))); end generate;
    g59: if SECT = 59 generate d: assert never {a; prev(b, 2)}; end generate;
    g60: if SECT = 60 generate d: cover {rose(ba); fell(ba) or stable(bb)} report "hit"; end generate;
    g61: if SECT = 61 generate d: cover {{a; b} && {c; a}} report "hit"; end generate;
    g62: if SECT = 62 generate d: assert always {b; a[+]} |-> c; end generate;
    g63: if SECT = 63 generate d: assert always {b; a[*1 to 2]} |-> next c; end generate;
    g64: if SECT = 64 generate d: assert always {b; a[*1 to 2]; b} |-> (a until c); end generate;
    g65: if SECT = 65 generate d: assert always {b; a[=1]} |-> c; end generate;
    g66: if SECT = 66 generate d: assert always {b; a[*1 to 2]} |-> (c or next b); end generate;
    g67: if SECT = 67 generate d: assert always {b; a[*1 to 2]} |-> (c -> next a); end generate;
    g68: if SECT = 68 generate d: assert always {a; b[+]} |-> {c; c}; end generate;
    g40: if SECT = 40 generate d: cover {a; {b : c}[*1 to 2]} report "hit"; end generate;
end architecture;
