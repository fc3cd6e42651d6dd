/* callback of the table compiler check: a marker, then its entry's data */
#define _BSDCONV_INTERNAL
#include <stdlib.h>
#include <string.h>
#include "bsdconv.h"

void cbconv(struct bsdconv_instance *ins){
	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
	struct bsdconv_codec *this_codec=THIS_CODEC(ins);
	void *data_ptr;
	DATA_MALLOC(ins, this_phase->data_tail->next);
	this_phase->data_tail=this_phase->data_tail->next;
	this_phase->data_tail->next=NULL;
	this_phase->data_tail->flags=0;
	this_phase->data_tail->len=2;
	this_phase->data_tail->data="\x03\xee";
	LISTCPY_ST(ins, this_phase->data_tail, this_phase->state.data, this_codec->data_z);
	this_phase->state.status=NEXTPHASE;
}
