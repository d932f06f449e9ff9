// 0-: with equality and functions
/*0*/"f(X,b)=X. f(i(X),X)=b. p(k0) | q(X,Y) | -r(Y). -p(a) | q(a,k1). r(f(a,b)). -q(a,Z) | Z=b. a!=b | r(k2). ",
/*1*/"@08,2,2 f(X,Y)=f(Y,X). f(X,f(X,Y))=Y. f(k0,a)!=f(k1,b). p(f(X,X)) | -p(X). p(k2). -p(f(a,f(b,b))). ",
/*2*/"-q(X,X). q(k0,Y) | q(Y,k1). q(X,Y) | -q(Y,X). p(X) | q(X,k2). -p(a). -p(b). ",
/*3*/"g(X)=X | p(X). -p(k0). -p(g(k1)). q(g(g(a)),k2). -q(X,a) | X=b | r(X). -r(g(X)). a!=b. ",
/*4*/"@12,3,2 X=a | X=b. q(X,X). -q(a,b) | p(k0). -q(k1,k2) | r(X). -p(X) | -r(X). g(X)!=X. ",
/*5*/"-p(X) | -p(Y) | q(X,Y) | r(Z). p(k0) | p(k1). -q(X,X). -q(k2,b) | p(X). -r(a). s(X) | s(Y) | -r(X). ",
/*6*/"g(g(X))=X. g(k0)=k1. p(g(a)) | p(g(b)). -p(k2) | q(a,g(a)). -q(g(X),X) | r(X). -q(X,g(X)) | -r(g(X)). ",
/*7*/"f(X,X)=a. f(X,a)=X. f(f(X,k0),k1)=f(X,k2). p(f(a,b)). -p(b) | q(f(a,a),f(b,a)). -p(f(X,Y)) | -q(Y,X) | s(X). ",
/*8*/"-=(g(X),g(Y)) | X=Y. g(k0)=g(k1) | p(a). g(a)!=k2. -p(X) | g(X)=b | s(X). -s(a) | -s(b). q(a,b) | q(b,a). -q(X,Y) | s(X). ",
/*9*/"p(X,Y,Z) | -p(Y,X,Z). p(X,Y,Z) | -p(X,Z,Y). p(a,k0,b). -p(k1,a,k2) | q(a,b). -q(X,Y) | -p(X,Y,Y) | p(Y,Y,X). ",
/*10*/"-p(X) | p(g(X)). p(k0) | -p(g(g(g(X)))). p(a) | s(k1). -s(X) | p(X). -p(g(g(k2))) | q(a,a). -q(X,Y) | X!=Y. ",
/*11*/"f(a,X)=g(X) | s(X). -s(k0). f(k1,b)!=g(b) | s(a). r(f(X,Y),g(Y)) | -s(Y). -r(f(k2,b),g(a)). s(b) | p(f(a,b)). -p(g(b)). ",
// 12-: function-free, without equality
/*12*/"p(k0) | q(a). -p(a) | q(k1). -q(X) | r(X,k2). -r(X,Y) | -p(X) | s(Y). -s(k3). -r(b,X) | p(X). ",
/*13*/"p(a) | p(b). -p(X) | q(X,k0) | r(X). -q(X,Y) | -p(Y) | r(Y). -r(k1). -r(X) | -q(k2,X). p(k3) | r(a). ",
/*14*/"p(a,b) | p(b,a). -p(X,X). -p(X,Y) | -p(Y,Z) | p(X,Z). -p(k0,k1) | q(k2). -q(X) | p(X,k3). ",
/*15*/"p(X) | q(X). -p(k0) | r(a). -q(k1) | r(b). -r(X) | -p(X) | s(X,k2). -s(X,Y) | -s(Y,X). -r(b) | q(k3). p(a) | -q(b). ",
/*16*/"p(X,Y) | q(Y,X). -p(a,k0) | -q(k1,b). -p(X,X) | r(X). -q(X,X) | r(X). -r(k2) | -p(k3,X). -r(b) | -q(a,X). ",
/*17*/"p(a) | q(a). p(b) | -q(b). -p(k0) | q(k1). -p(k2) | -q(k3). p(X) | q(X) | r(X). -r(X). ",
/*18*/"p(k0,k1) | p(k1,k0) | q. -p(X,Y) | p(Y,X). -p(k2,k3) | -q. q | -p(a,a). -q | p(b,b). -p(X,b) | r(X). -r(a). ",
/*19*/"-p(X) | -q(Y) | r(X,Y) | r(Y,X). p(k0). q(k1). -r(k2,X) | s(X). -s(X) | -p(X). -r(a,a). -r(X,b) | t(X). -t(k3). ",
