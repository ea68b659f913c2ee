import { cli } from './engine'
import { p23 } from './p23'
import { p24 } from './p24'
import { p25 } from './p25'
import { p26 } from './p26'
import { p27 } from './p27'
import { p28 } from './p28'
import { p29 } from './p29'
import { p31 } from './p31'
import { long } from './long'
void cli([...p23, ...p24, ...p25, ...p26, ...p27, ...p28, ...p29, ...p31, ...long])
