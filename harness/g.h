// Repository headers for harnesses.
#pragma once
#include "sym.h"
#include "Reasoner/rincludes.h"
#include "Db/dballoc.h"
#include "Db/dbmem.h"
#include "Db/dbdata.h"
#include "Db/dbcompare.h"
#include "Db/dbindex.h"
#include "Db/dbhash.h"
#include "Db/dblock.h"
#include "Db/dbquery.h"
#undef UNUSED
