package sx is
    impure function nd_int(lo, hi : integer) return integer;
    impure function nd_time(lo, hi : integer) return time;  -- lo..hi fs
    impure function nd_bool return boolean;
    procedure check(cond : boolean; msg : string);
    procedure assume(cond : boolean);
    procedure reach(msg : string);
    impure function pick(n : integer) return integer;  -- one value per path
    impure function conj(a, b : boolean) return boolean;   -- no branch
    -- an error is reported before passed is called iff cond
    procedure expect_error(cond : boolean; msg : string);
    procedure passed;
    procedure done;
    attribute foreign of expect_error : procedure is "INTERNAL _sx_expect";
    attribute foreign of passed : procedure is "INTERNAL _sx_passed";
    attribute foreign of nd_int : function is "INTERNAL _sx_nd";
    attribute foreign of nd_time : function is "INTERNAL _sx_nd";
    attribute foreign of nd_bool : function is "INTERNAL _sx_bool";
    attribute foreign of check : procedure is "INTERNAL _sx_check";
    attribute foreign of assume : procedure is "INTERNAL _sx_assume";
    attribute foreign of reach : procedure is "INTERNAL _sx_reach";
    attribute foreign of pick : function is "INTERNAL _sx_pick";
    attribute foreign of conj : function is "INTERNAL _sx_and";
    attribute foreign of done : procedure is "INTERNAL _sx_done";
end package;
package body sx is
    impure function nd_int(lo, hi : integer) return integer is
    begin
        return 0;
    end function;
    impure function nd_time(lo, hi : integer) return time is
    begin
        return 0 ns;
    end function;
    impure function nd_bool return boolean is
    begin
        return false;
    end function;
    procedure check(cond : boolean; msg : string) is
    begin
    end procedure;
    procedure assume(cond : boolean) is
    begin
    end procedure;
    procedure reach(msg : string) is
    begin
    end procedure;
    impure function pick(n : integer) return integer is
    begin
        return 0;
    end function;
    impure function conj(a, b : boolean) return boolean is
    begin
        return false;
    end function;
    procedure expect_error(cond : boolean; msg : string) is
    begin
    end procedure;
    procedure passed is
    begin
    end procedure;
    procedure done is
    begin
    end procedure;
end package body;
