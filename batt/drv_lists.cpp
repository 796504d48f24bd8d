#include "drv.hpp"
#include "common/bitlist.hpp"
#include "common/boolean.hpp"
#include "common/containers.hpp"
using namespace eth;
void reg_lists() {
    Typ<ListFixedSizedParts<Slot>>::lim("lu64"); Typ<ListFixedSizedParts<Root>>::lim("lB32"); Typ<ListFixedSizedParts<Checkpoint>>::lim("lCp");
    Typ<ListFixedSizedParts<Boolean>>::lim("lBool"); Typ<ListFixedSizedParts<Bytes<3>>>::lim("lB3");
    Typ<ListFixedSizedParts<Bytes<121>>>::lim("lB121"); Typ<ListFixedSizedParts<Bytes<184>>>::lim("lB184");
    Typ<ListVariableSizedParts<Bitlist>>::lim("lBitl");
    add_seq<ListFixedSizedParts<Slot>>("lu64", mkl_<ListFixedSizedParts<Slot>>); add_seq<ListFixedSizedParts<Checkpoint>>("lCp", mkl_<ListFixedSizedParts<Checkpoint>>);
    add_seq<ListFixedSizedParts<Bytes<3>>>("lB3", mkl_<ListFixedSizedParts<Bytes<3>>>); add_seq<ListVariableSizedParts<Bitlist>>("lBitl", mkl_<ListVariableSizedParts<Bitlist>>);
}
