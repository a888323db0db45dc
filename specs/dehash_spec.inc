        ret is Some <==> hashed(demangled@), //#C13,C08 a name has a hash iff it ends in `::h` and 16 hex digits
        ret is Some ==> (*ret->0)@ == path(demangled@), //#C13,C08 only the hash is removed
