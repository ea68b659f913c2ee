import { cli } from './engine'
import { p30 } from './p30'
void cli(p30)
